// Opens a page written by coin2html and uses it: reads {page, actions | walk} as JSON, prints what the page
// shows after every action.
"use strict";
const fs = require("fs"), vm = require("vm");
const { Document, Element, Event, Node, Text, parseInto } = require("./dom.js");

const job = JSON.parse(fs.readFileSync(0, "utf8"));
const document = new Document();
const problems = [];
const window = { document, Element, HTMLElement: Element, SVGElement: Element, Node, Text, Event, CustomEvent: Event, MouseEvent: Event, UIEvent: Event, InputEvent: Event, navigator: { userAgent: "" }, location: { hash: "", search: "", href: "" } };
Object.assign(window, {
  console: { log() {}, info() {}, debug() {}, warn() {}, error() {}, table() {}, trace() {} },
  setTimeout: (f, _, ...a) => (queue.push(() => f(...a)), queue.length), clearTimeout() {}, queueMicrotask: (f) => queue.push(f),
  requestAnimationFrame: (f) => (queue.push(() => f(0)), queue.length), setInterval: () => 0, clearInterval() {}, performance: { now: () => 0 },
  getComputedStyle: (e) => e.style, matchMedia: () => ({ matches: false, addEventListener() {} }), alert() {}, innerWidth: 1200, innerHeight: 800,
  addEventListener(t, f) { if (t == "load" || t == "DOMContentLoaded") queue.push(f); }, removeEventListener() {}, localStorage: { getItem: () => null, setItem() {}, removeItem() {} },
  // instanceof tells elements of different names apart
  ...Object.fromEntries(Object.entries({ Input: ["input"], Select: ["select"], Option: ["option"], Table: ["table"], TableRow: ["tr"], TableCell: ["td", "th"], TableSection: ["thead", "tbody", "tfoot"], Div: ["div"],
    LI: ["li"], UList: ["ul"], Span: ["span"], Anchor: ["a"], Output: ["output"], Label: ["label"], Script: ["script"], Body: ["body"], Button: ["button"] })
    .map(([k, ns]) => ["HTML" + k + "Element", { [Symbol.hasInstance]: (e) => e instanceof Element && ns.includes(e.localName) }])),
  structuredClone, URL, URLSearchParams, TextEncoder, TextDecoder,
});
window.window = window.self = window;
const queue = [];
const settle = () => { while (queue.length) queue.shift()(); };
vm.createContext(window);

function attempt(f) {
  try { f(); settle(); return ""; } catch (e) { return String((e && e.stack) || e).split("\n").slice(0, 4).join(" | "); }
}
const q = (s) => document.querySelector(s);
const text = (e) => e.textContent.replace(/[\u00a0]/g, " ");
const change = (e) => { e.dispatchEvent(new Event("input")); e.dispatchEvent(new Event("change")); };
const rowsOf = (t) => (t.querySelector("tbody") ? t.querySelector("tbody").children.map((r) => r.children.map(text)) : []);
const tableIn = (e) => { const t = e && e.querySelector("table"); return t ? { head: t.querySelectorAll("thead th").map(text), rows: rowsOf(t) } : null; };
const opt = (e) => (e ? e.value : "");
const SEL = { root: "#sidebar select#root", list: "#sidebar ul#accounts", view: "#main #controls select#view", start: "#main #controls input#start", end: "#main #controls input#end",
  closed: "#main #controls input#closedAccounts", main: "#main section#view", name: "#main output#account span#name", com: "#main output#account span#commodity", details: "div#details",
  sub: "#includeSubAccounts", notes: "#includeNotes", loc: "#showLocation", agg: "#aggregate", style: "#aggregationStyle", max: "#subAccountMax", depth: "#balanceDepth", excl: "#excludedSubAccounts" };
const el = (k) => q(SEL[k]);
const box = (k) => { const e = el(k); return e ? [String(e.checked)] : []; };
const val = (k) => { const e = el(k); return e ? [e.value] : []; };

function observe(err) {
  const main = el("main"), det = el("details"), svg = main.querySelector("svg");
  const none = { head: [], rows: [] };
  return {
    err, name: text(el("name")), com: text(el("com")).trim(), views: el("view").options.map((o) => o.text), view: opt(el("view")),
    list: el("list").children.map(text), start: el("start").value, end: el("end").value, closed: el("closed").checked,
    sub: box("sub"), notes: box("notes"), loc: box("loc"), agg: val("agg"), style: val("style"), max: val("max"), depth: val("depth"),
    aggs: el("agg") ? el("agg").options.map((o) => o.value) : [],
    excl: el("excl") ? [el("excl").querySelectorAll("span").map((s) => text(s).trim())] : [],
    kind: main.querySelector("table") ? "table" : svg ? "chart" : "none",
    table: tableIn(main) || none,
    // the figures of a drawing: what its parts say when pointed at
    chart: svg ? svg.querySelectorAll("title").map(text) : [],
    legend: svg ? svg.querySelectorAll(".legend text").map(text) : [],
    open: !det.hidden, details: (!det.hidden && tableIn(det)) || none,
  };
}

// What can be done now.
function act(a) {
  const pick = (k, v) => { const e = el(k), i = e.options.findIndex((o) => o.value == v); if (i < 0) throw new Error("no such choice: " + v); e.selectedIndex = i; change(e); };
  const check = (k) => { const e = el(k); e.checked = !e.checked; change(e); };
  const enter = (k, v) => { const e = el(k); e.value = v; change(e); };
  switch (a.do) {
    case "root": case "view": case "agg": case "style": return pick(a.do, a.v);
    case "closed": case "sub": case "notes": case "loc": return check(a.do);
    case "start": case "end": case "max": case "depth": return enter(a.do, a.v);
    case "account": return el("list").children[a.i].click();
    case "open": { const e = el("list").children[a.i]; e.click(); e.click(); return e.dispatchEvent(new Event("dblclick")); }
    case "crumb": return el("name").querySelectorAll("a")[a.i].click();
    case "header": return el("main").querySelectorAll("thead th")[a.i].click();
    case "legend": return el("main").querySelectorAll(".legend text")[a.i].click();
    case "include": return el("excl").querySelectorAll("span")[a.i].click();
    case "cell": return el("main").querySelector("tbody").children[a.r].children[a.c].click();
    case "box": return el("main").querySelectorAll("svg title")[a.i].parentNode.querySelector("rect").click();
    case "bar": return el("main").querySelectorAll("svg title")[a.i].parentNode.click();
    case "close": return el("details").querySelector("a").click();
  }
  throw new Error("unknown action " + a.do);
}
let seed = 0;
const rnd = () => { seed = (seed + 0x6d2b79f5) | 0; let t = Math.imul(seed ^ (seed >>> 15), 1 | seed); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
const int = (n) => Math.floor(rnd() * n), one = (l) => l[int(l.length)];
function choose(w) {
  const out = [], add = (weight, a) => { for (let i = 0; i < weight; i++) out.push(a); };
  if (w.aggregated && rnd() < 0.8) {
    // towards aggregated views
    const views = el("view").options.filter((o) => /Register/.test(o.value));
    if (!/Register/.test(el("view").value)) return { do: "view", v: one(views).value };
    if (el("agg") && el("agg").value == "None") return { do: "agg", v: one(el("agg").options.slice(1)).value };
    if (el("sub") && !el("sub").checked && rnd() < 0.7) return { do: "sub" };
  }
  add(2, () => ({ do: "root", v: one(el("root").options).value }));
  add(4, () => ({ do: "view", v: one(el("view").options).value }));
  add(3, () => ({ do: one(["start", "end"]), v: one(w.dates) }));
  add(1, () => ({ do: "closed" }));
  if (!w.aggregated && rnd() < 0.4) {
    if (rnd() < 0.3) return { do: "view", v: one(["Balances", "Register", "Register"]) };
    if (el("agg") && el("agg").options.some((o) => o.value == "None") && el("agg").value != "None") return { do: "agg", v: "None" };
  }
  const n = el("list").children.length;
  if (n) { add(5, () => ({ do: "account", i: int(n) })); add(2, () => ({ do: "open", i: int(n) })); }
  const crumbs = el("name").querySelectorAll("a").length;
  if (crumbs > 1) add(2, () => ({ do: "crumb", i: int(crumbs) }));
  for (const k of ["notes", "loc"]) if (el(k)) add(2, () => ({ do: k }));
  if (el("sub")) add(4, () => ({ do: "sub" }));
  if (el("agg")) add(5, () => ({ do: "agg", v: one(el("agg").options).value }));
  if (el("style")) add(3, () => ({ do: "style", v: one(el("style").options).value }));
  if (el("max")) add(3, () => ({ do: "max", v: one(w.max) }));
  if (el("depth")) add(3, () => ({ do: "depth", v: one(w.depth) }));
  if (el("excl")) {
    const spans = el("excl").querySelectorAll("span").length;
    if (spans) add(4, () => ({ do: "include", i: int(spans) }));
    const t = el("main").querySelector("table");
    if (t) {
      const head = t.querySelectorAll("thead th").map(text), cols = head.map((x, i) => i).filter((i) => head[i][0] == ":");
      if (cols.length) add(8, () => ({ do: "header", i: one(cols) }));
    } else {
      const l = el("main").querySelectorAll(".legend text").map(text), cols = l.map((x, i) => i).filter((i) => l[i][0] == ":");
      if (cols.length) add(8, () => ({ do: "legend", i: one(cols) }));
    }
  }
  const agg = el("agg");
  const t = el("main").querySelector("table");
  if (agg && agg.value != "None" && t) {
    const rows = t.querySelector("tbody").children.length, cols = t.querySelectorAll("thead th").length;
    if (rows && cols > 1) add(5, () => ({ do: "cell", r: int(rows), c: 1 + int(cols - 1) }));
  }
  if (el("view").value == "Balances - Chart") {
    const boxes = el("main").querySelectorAll("svg title").length;
    if (boxes) add(5, () => ({ do: "box", i: int(boxes) }));
  }
  if (agg && !t) {
    const bars = el("main").querySelectorAll("svg title").length;
    if (bars) add(4, () => ({ do: "bar", i: int(bars) }));
  }
  if (!el("details").hidden) add(2, () => ({ do: "close" }));
  return one(out)();
}

const steps = [];
const page = fs.readFileSync(job.page, "utf8");
const html = /<html[^>]*>([\s\S]*)<\/html>/.exec(page)[1];
const inBody = html.indexOf("<body>");
parseInto(document.body, html.slice(inBody + 6).replace(/<\/body>\s*$/, ""));
let err = attempt(() => {
  for (const s of document.querySelectorAll("script")) if (!/json/.test(s.getAttribute("type") || "")) vm.runInContext(s.textContent, window, { filename: "viewer.js" });
});
const safe = (err) => { try { return observe(err); } catch (e) { return { err: err || String(e.stack) }; } };
steps.push({ act: { do: "load" }, obs: safe(err) });
for (const a of job.actions || []) { err = attempt(() => act(a)); steps.push({ act: a, obs: safe(err) }); }
if (job.walk) {
  seed = job.walk.seed;
  for (let i = 0; i < job.walk.n; i++) {
    let a;
    try { a = choose(job.walk); } catch (e) { steps.push({ act: { do: "none" }, obs: { err: "the page is unusable: " + e.stack } }); break; }
    err = attempt(() => act(a));
    steps.push({ act: a, obs: safe(err) });
  }
}
console.log(JSON.stringify({ steps, roots: el("root") ? el("root").options.map((o) => o.text) : [] }));
