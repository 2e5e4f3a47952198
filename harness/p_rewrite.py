"""C07, C09: formatting and modifying files of transactions; C08: rewriting files in place; C23: the test runner."""
import json, os, re, shutil
from core import CheckError, run
from ledger import *
from p_ledger import LEDGER_ASSUMPTIONS, emitted, sample, scale, style
from p_text import today

NASTY_NOTES = ["  indented", "a ; b", "; double", "#", "# x", "100 CAD", "note with, commas, #a: b, #c", "x" * 70, "long " * 20 + "end", " ", "", "#t:v #u", "= 5 CAD",
               "tab\tinside", "trailing ", "a" * 40, "b" * 55, "(12)", "été", "end test", "a  b", "* star", "#x/y-z_1:  spaced value ", "2020/01/01 x", "\tx"]
NASTY_DESCS = ["a  b", "(12) again", "(x7) (x7)", "(12)", "(paren) x", "= 5", "-1", "100 CAD", "x" * 75, "été à la mode", "# hash", "(12", "A, B & C", "*", "! flagged", "tab\there", "2020/01/02", "d" * 62]
OWN_LINE = re.compile(r"^\s*$|^\s")


def nasty(rng, g, p=0.3):
    """Notes and descriptions of unusual form; those that the head of a line cannot hold come on lines of their own."""
    for t in g.txns:
        if rng.random() < p:
            t["desc"] = rng.choice(NASTY_DESCS)
        for x in [t] + t["posts"]:
            if rng.random() < p / 2:
                x["notes"] = [rng.choice(NASTY_NOTES) if rng.random() < 0.7 else note_text(rng) for _ in range(rng.choice([1, 1, 2, 3]))]


def read_lines(path):
    with open(path, encoding="utf-8", errors="surrogateescape", newline="") as f:
        t = f.read()
    return t[:-1].split("\n") if t.endswith("\n") else (t.split("\n") if t else [])


def out_lines(out):
    return out[:-1].split("\n") if out.endswith("\n") else (out.split("\n") if out else [])


class TxnFiles:
    """A database whose transactions are in one file, possibly with includes."""

    def __init__(self, rng, d, name="transactions.coin", includes=0.3, **kw):
        opts = dict(coms=rng.choice([1, 1, 2, 3]), accts=rng.choice([3, 6]), txns=rng.choice([1, 3, 6, 10]), span=rng.choice([1, 3, 15]), assertions=0.25, chain=False,
                    decs=(2, 2, 0, 3), notes=0.4)
        opts.update(kw)
        self.g = g = Gen(rng, **opts)
        nasty(rng, g)
        self.name = name
        st = style(rng)
        rest = list(g.txns)
        files = []
        self.inc = None
        if rng.random() < includes and len(rest) > 1:
            a = rng.randrange(len(rest))
            b = rng.randrange(a, len(rest)) + 1
            self.inc = rng.choice(["part.inc", "sub/part.inc"])
            files.append((self.inc, rest[a:b]))
            rest[a:b] = [dict(kind="raw", lines=["include " + self.inc])]
        files.append((name, rest))
        heads = [("commodities.coin", [e for e in g.entries if e["kind"] == "commodity"]), ("accounts.coin", [e for e in g.entries if e["kind"] == "account"])]
        write_files(d, heads, g.dec, Style(plain=True))
        write_files(d, files, g.dec, st)
        self.names = [n for n, _ in heads + files]

    def text_event(self, case, d):
        fs = []
        for n in self.names:
            fs.append(dict(name="transactions.coin" if n == self.name else n, lines=read_lines(os.path.join(d, n))))
        case.add("text", fs=sorted(fs, key=lambda f: f["name"]), today=today(d))
        case.add("loadfile")


class Enumerated(TxnFiles):
    """The same for a scenario of MC_Rewriting."""

    def __init__(self, d, txns):
        self.name, self.inc = "transactions.coin", None
        heads = [("commodities.coin", [commodity("CAD", default=True)]), ("accounts.coin", [account("A"), account("B"), account("A:C")])]
        es = [txn(t["day"], t["desc"], [dict(p, notes=list(p["notes"] or [])) for p in t["posts"]], notes=list(t["notes"] or [])) for t in txns]
        for n, x in heads + [(self.name, es)]:
            write_files(d, [(n, x)], {"CAD": 2}, Style(plain=True))
        self.names = [n for n, _ in heads] + [self.name]
        self.g = type("G", (), dict(names=["A", "B", "A:C"], com={"A": "CAD", "B": "CAD", "A:C": "CAD"}))


MC_REWRITE = ("SPECIFICATION MCSpec\nCONSTANTS MaxTxns = %d\n WithModify = %s\nINVARIANTS LoadsAlways ReadsBack SqueezeOnce EachOnce InOrder ModKeeps Emitted\n"
              "CHECK_DEADLOCK FALSE\n")


def snapshot(d):
    files = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            files[os.path.relpath(p, d)] = open(p, "rb").read()
    return files


# -- C07 ----------------------------------------------------------------------------------------------
def c07_case(chk, case, d, rng):
    f = TxnFiles(rng, d, name=rng.choice(["transactions.coin", "transactions.coin", "x.txt"]))
    c07_observe(chk, case, d, rng, f)


def c07_observe(chk, case, d, rng, f):
    path = os.path.join(d, f.name)
    f.text_event(case, d)
    keep_files(case, d)
    squeeze = rng.random() < 0.3
    args = ["format"] + (["-t"] if squeeze else [])
    rc, out, err = coin(chk, d, args + [path])
    out = out.replace("DB/", d + "/")
    case.replay["commands"] = [["coin"] + args + [f.name]]
    case.add("format", ok=rc == 0, out=out_lines(out) if rc == 0 else [], t=squeeze, today=today(d))
    chk.count("formatted" if rc == 0 else "rejected")
    if rc != 0:
        return
    # formatting the output
    second = os.path.join(d, "second.txt")
    with open(second, "w", encoding="utf-8", errors="surrogateescape") as h:
        h.write(out)
    rc, out2, err = coin(chk, d, args + [second])
    case.add("sametext", what="formatting the output again", exact=False, a=out_lines(out), b=out_lines(out2) if rc == 0 else ["failed"])
    if rng.random() < 0.4 and '"' not in out:
        rc, out3, err = coin(chk, d, args + ["-ledger", path])
        case.add("unquoted", a=out_lines(out), b=out_lines(out3), today=today(d))
    if rng.random() < 0.6:
        # several files at once, in place
        others = []
        if rng.random() < 0.6:
            others = ["other.coin"]
            shutil.copy(os.path.join(d, "second.txt" if rng.random() < 0.5 else f.name), os.path.join(d, "other.coin"))
        order = [f.name] + others
        rng.shuffle(order)
        alone = {}
        for n in order:
            rc, o, err = coin(chk, d, args + [os.path.join(d, n)])
            alone[n] = out_lines(o) if rc == 0 else ["failed"]
        before = snapshot(d)
        rc, o, err = coin(chk, d, args + [os.path.join(d, n) for n in order])
        case.add("sametext", what="formatting several files", exact=True, a=sum((alone[n] for n in order), []), b=out_lines(o) if rc == 0 else ["failed"])
        rc, o, err = coin(chk, d, args + ["-i"] + [os.path.join(d, n) for n in order])
        case.replay["commands"].append(["coin"] + args + ["-i"] + order)
        case.add("sametext", what="formatting in place prints nothing", exact=True, a=[], b=out_lines(o) if rc == 0 else ["failed"])
        after = snapshot(d)
        for n in order:
            case.add("sametext", what="formatted in place", exact=True, a=alone[n], b=read_lines(os.path.join(d, n)))
        rest = lambda s: sorted((n, len(b)) for n, b in s.items() if n not in order)
        case.add("sametext", what="other files", exact=True, a=["%s %d" % x for x in rest(before)], b=["%s %d" % x for x in rest(after)])
    case.weight = 20


def c07(chk):
    chk.build("coin")
    scn = emitted(chk.model("files", "MC_Rewriting", MC_REWRITE % (scale(chk, 2, 3), "FALSE"), workers=8))

    def enumerated(s):
        return lambda chk, case, d, rng: c07_observe(chk, case, d, rng, Enumerated(d, s["txns"]))
    chk.run_cases([("enumerated-%d" % i, enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 150, 1500)))] +
                  [("format-%d" % i, c07_case) for i in range(scale(chk, 350, 3000))])
    chk.validate("Trace_Rewrite")
    return chk.finish("model_checking", "files of transactions enumerated by MC_Rewriting and random ones with unusual notes and descriptions, includes, several files, -t, -i and -ledger; non-trivial when distinct",
                      LEDGER_ASSUMPTIONS)


# -- C09 ----------------------------------------------------------------------------------------------
NEW_TAGS = ["#new", "#new-", "#a--b-: v", "#new1: value one", "#k_2:v", "#a-b-c", "#n/w: x y", "#new, #other: thing", "new", "#new1:v, #new", "#k: some value, #z", "#aa:1, #bb:2, #cc", "#zz: a b c d e f g h i j k l m n o p"]


def rand_tag_expr(rng, inv=True):
    t = dict(inv=inv and rng.random() < 0.3, key=rand_alts(rng, KEYS), hasval=rng.random() < 0.3, val=[])
    if t["hasval"]:
        t["val"] = rand_alts(rng, VALS + [""])
    return t


def tag_arg(t):
    return ("!" if t["inv"] else "") + rex_text(t["key"]) + (":" + rex_text(t["val"]) if t["hasval"] else "")


def modify_query(rng, g):
    m = dict(hasp=False, p=[], hast=False, t=rand_tag_expr(rng), hasa=False, a="", haspt=False, pt=rand_tag_expr(rng), to="", ptags=[], ttags=[])
    if rng.random() < 0.35:
        m["hasp"], m["p"] = True, rand_alts(rng, [t["desc"] for t in g.txns if t["desc"] and t["desc"].isascii()] or ["x"], blanks=True)
    if rng.random() < 0.3:
        m["hast"] = True
    if rng.random() < 0.7:
        m["hasa"], m["a"] = True, unique_abbrev(rng, rng.choice(g.names), closure(g.names)) if rng.random() < 0.3 else rng.choice(g.names)
        if rng.random() < 0.05:
            m["a"] = "Nowhere:At:All"
    if rng.random() < 0.3:
        m["haspt"] = True
    if rng.random() < 0.6:
        com = g.com.get(m["a"])
        same = [n for n in g.names if com is None or g.com[n] == com] or g.names
        m["to"] = rng.choice(same)
        if rng.random() < 0.05:
            m["to"] = "Nowhere"
    if rng.random() < 0.4:
        m["ptags"] = [rng.choice(NEW_TAGS)]
    if rng.random() < 0.4:
        m["ttags"] = [rng.choice(NEW_TAGS)]
    return m


def modify_args(m):
    a = []
    if m["hasp"]:
        a += ["-p", rex_text(m["p"])]
    if m["hast"]:
        a += ["-tt", tag_arg(m["t"])]
    if m["hasa"]:
        a += ["-a", m["a"]]
    if m["haspt"]:
        a += ["-pt", tag_arg(m["pt"])]
    if m["to"]:
        a += ["-a:", m["to"]]
    if m["ptags"]:
        a += ["-pt:", m["ptags"][0]]
    if m["ttags"]:
        a += ["-tt:", m["ttags"][0]]
    return a


def c09_case(chk, case, d, rng):
    f = TxnFiles(rng, d, includes=0.1, tags=0.7)
    c09_observe(chk, case, d, rng, f, modify_query(rng, f.g))


def c09_observe(chk, case, d, rng, f, m):
    path = os.path.join(d, f.name)
    f.text_event(case, d)
    keep_files(case, d)
    order = [f.name]
    if rng.random() < 0.3:
        shutil.copy(path, os.path.join(d, "copy.coin"))
        order = rng.choice([[f.name, "copy.coin"], ["copy.coin", f.name]])
    before = snapshot(d)
    args = ["modify"] + modify_args(m)
    rc, out, err = coin(chk, d, args + [os.path.join(d, n) for n in order])
    case.replay["commands"] = [["coin"] + args + order]
    counts = {n: int(c) for c, n in re.findall(r"^Updated (\d+) transactions in DB/(.*)$", err, re.M)}
    for n in order:
        case.add("modify", m=m, ok=rc == 0, out=read_lines(os.path.join(d, n)) if rc == 0 else [], count=counts.get(n, -1), today=today(d))
    chk.count("modified" if rc == 0 else "rejected")
    after = snapshot(d)
    same = [n for n in before if n not in order or rc != 0]
    case.add("sametext", what="other files", exact=True, a=sorted(same + (["%d files" % len(before)])),
             b=sorted([n for n in same if after.get(n) == before[n]] + ["%d files" % (len(after) if rc == 0 else len(before))]))
    if rc == 0 and len({f.g.com[n] for n in f.g.names}) == 1:
        rc, out, err = coin(chk, d, ["format", path])
        case.add("sametext", what="the file stays loadable", exact=False, a=read_lines(path), b=out_lines(out) if rc == 0 else ["failed"])
    case.weight = 20


def c09(chk):
    chk.build("coin")
    scn = emitted(chk.model("modifications", "MC_Rewriting", MC_REWRITE % (scale(chk, 1, 2), "TRUE"), workers=8))

    def enumerated(s):
        return lambda chk, case, d, rng: c09_observe(chk, case, d, rng, Enumerated(d, s["txns"]), s["m"][0])
    chk.run_cases([("enumerated-%d" % i, enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 500, 3500)))] +
                  [("modify-%d" % i, c09_case) for i in range(scale(chk, 400, 3500))])
    chk.validate("Trace_Rewrite")
    return chk.finish("model_checking", "files and modifications enumerated by MC_Rewriting and random files modified with random selections and changes; non-trivial when distinct", LEDGER_ASSUMPTIONS)
