// Bundles the viewer's scripts into one page body: bundle.js JSDIR OUTDIR writes OUTDIR/head.html and OUTDIR/body.html.
"use strict";
const fs = require("fs"), path = require("path");
const esbuild = require(process.env.ESBUILD || "/opt/veriftools/node/node_modules/esbuild");
const [, , js, out] = process.argv;
const body = fs.readFileSync(path.join(js, "body.html"), "utf8");
const srcs = [];
const rest = body.replace(/<script\b[^>]*\bsrc\s*=\s*["']([^"']+)["'][^>]*>\s*<\/script>/g, (_, s) => (srcs.push(s), ""));
const d3 = path.join(__dirname, "d3.js");
esbuild.build({
  stdin: { contents: srcs.map((s) => `import ${JSON.stringify("./" + s)};`).join("\n"), resolveDir: js, loader: "ts" },
  bundle: true, write: false, format: "iife", target: "es2022", logLevel: "error", charset: "ascii",
  plugins: [{ name: "d3", setup(b) { b.onResolve({ filter: /^d3(-[\w-]+)?$/ }, () => ({ path: d3 })); } }],
}).then((r) => {
  const code = r.outputFiles[0].text;
  fs.mkdirSync(out, { recursive: true });
  fs.copyFileSync(path.join(js, "head.html"), path.join(out, "head.html"));
  fs.writeFileSync(path.join(out, "body.html"), rest + "\n<script>" + code + "</script>\n");
}).catch((e) => { console.error(String(e)); process.exit(1); });
