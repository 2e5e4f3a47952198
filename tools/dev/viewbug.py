"""Bugs planted in the viewer: like mkbug.bug, with the model of a page laid beside the demonstration."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkbug
PAGE = '''
# The page of the ledger in $COINDB, with the viewer as the tree has it now.
here=$(cd "$(dirname "$0")" && pwd)
page() {
  node "$here/bundle.js" "$PWD/cmd/coin2html/js" "$d/dist" || exit 1
  printf '{"Replace":{"%s":"%s","%s":"%s"}}' "$PWD/cmd/coin2html/js/dist/head.html" "$d/dist/head.html" "$PWD/cmd/coin2html/js/dist/body.html" "$d/dist/body.html" > "$d/overlay.json"
  GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 go build -overlay "$d/overlay.json" -o "$d/coin2html" ./cmd/coin2html || exit 1
  "$d/coin2html" > "$d/page.html" || exit 1
}
# use ACTIONS EXPRESSION: uses the page and prints an expression over what it shows in the end.
use() {
  printf '{"page":"%s","actions":%s}' "$d/page.html" "$1" | TZ=UTC node "$here/run.js" > "$d/out.json" || exit 1
  node -e 'const s = JSON.parse(require("fs").readFileSync(process.argv[1])).steps, o = s[s.length - 1].obs; for (const x of s) if (x.obs.err) { console.log(x.obs.err); process.exit(0) }
const t = eval(process.argv[2]); console.log(Array.isArray(t) ? t.map((r) => [].concat(r).join(" | ")).join("\\n") : t)' "$d/out.json" "$2"
}
'''
DRIVER = "/verif/drivers/viewer"


def bug(id, prop, edits, demo, needs, breaks):
    extra = [(n, open(os.path.join(DRIVER, n)).read()) for n in ("bundle.js", "d3.js", "dom.js", "run.js")]
    mkbug.bug(id, prop, edits, PAGE + demo, needs, breaks, extra)
