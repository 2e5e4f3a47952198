"""C23: the test runner.  Test files are made of random entries and clauses; what each clause should print is
obtained by running it on its own, and from the command line over the same entries."""
import json, os, re, shutil
from core import CheckError
from ledger import *
from p_ledger import LEDGER_ASSUMPTIONS, emitted, sample, scale, style
from p_rewrite import TxnFiles, out_lines, read_lines

HEAD = re.compile(r"^(OK|FAIL) (?:DB/)?([^\s:]+):(\d+) (.*)$")
FILE = re.compile(r"^(OK|FAIL) (?:DB/)?([^\s:]+)$")
HUNK = re.compile(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$")


def show_command(rng, g):
    a = rng.choice(g.names)
    day = "%d/%02d/%02d" % (rng.choice([2018, 2019, 2020, 2021]), rng.randrange(1, 13), rng.randrange(1, 28))
    r = rng.random()
    if r < 0.3:
        c = [rng.choice(["balance", "bal", "b"])]
        if rng.random() < 0.4:
            c += ["-l", str(rng.choice([1, 2, 3]))]
        if rng.random() < 0.2:
            c += ["-z"]
        if rng.random() < 0.3:
            c += [rng.choice(["-b", "-e"]), day]
        if rng.random() < 0.4:
            c += [a]
        return c
    if r < 0.75:
        c = [rng.choice(["register", "reg", "r"])]
        for f, p in (("-r", 0.4), (rng.choice(["-m", "-q", "-y", "-w"]), 0.4), ("-bp", 0.1), ("-n", 0.2), ("-c", 0.1)):
            if rng.random() < p:
                c.append(f)
        for f, v, p in (("-b", day, 0.2), ("-e", day, 0.2), ("-g", str(rng.choice([0, 1, 2])), 0.2), ("-l", str(rng.choice([5, 8, 30])), 0.2),
                        ("-p", rng.choice(["a", "!e", "Pay"]), 0.15), ("-o", rng.choice(["csv", "json", "text"]), 0.2)):
            if rng.random() < p:
                c += [f, v]
        return c + [a]
    return rng.choice([["accounts"], ["acc", a], ["commodities"], ["com"], ["stats"], ["s"], ["tags"], ["format"], ["fmt", "-t"], ["format", "-t"], ["format", "-ledger"], ["f"]])


def command(rng, g, kind, i):
    if kind == "unknown":
        return [rng.choice(["frobnicate", "Balance", "regist", "tests"])]
    if kind == "silent":
        return rng.choice([["register", "-b", "2090/01/01", "-p", "x", rng.choice(g.names)], ["register", "-b", "2093/01/01", rng.choice(g.names)]])
    if kind == "mod":
        a = rng.choice(g.names)
        c = ["modify"] if rng.random() < 0.6 else ["mod"]
        if rng.random() < 0.8:
            same = [n for n in g.names if g.com[n] == g.com[a] and n != a] or [a]
            c += ["-a", a, "-a:", rng.choice(same)]
            if rng.random() < 0.3:
                c += ["-pt:", rng.choice(["#new", "#k:v", "#x1"])]
        else:
            c += ["-tt:", rng.choice(["#new", "#k:v", "#x1"])]
        if rng.random() < 0.3:
            c += ["-p", rng.choice(["a", "e", "P"])]
        return c
    return show_command(rng, g)


def wrong(rng, out):
    out = list(out)
    if not out:
        return [rng.choice(["", "x", "  "])]
    i = rng.randrange(len(out))
    r = rng.random()
    if r < 0.2:
        del out[i]
        return out or [""]
    if r < 0.35:
        out.insert(i, rng.choice(["", out[i], "extra"]))
    elif r < 0.5:
        out[i] = out[i] + rng.choice([" ", "\t", "x", "."])
    elif r < 0.6:
        out[i] = " " + out[i]
    elif r < 0.7 and len(out) > 1 and out[i - 1] != out[i]:
        out[i - 1], out[i] = out[i], out[i - 1]
    elif r < 0.8:
        out.append("")
    else:
        k = [j for j, c in enumerate(out[i]) if c.isalnum()]
        if not k:
            out[i] += "y"
        else:
            j = rng.choice(k)
            letters = [x for x in k if out[i][x].swapcase() != out[i][x] and len(out[i][x].swapcase()) == 1]
            if letters and rng.random() < 0.4:
                j = rng.choice(letters)
                out[i] = out[i][:j] + out[i][j].swapcase() + out[i][j + 1:]
            else:
                out[i] = out[i][:j] + ("8" if out[i][j] != "8" else "3") + out[i][j + 1:]
    return out


def parse_report(case, out):
    """(clauses with the lines of their differences, files); what cannot be read is reported as a difference."""
    lines = out_lines(out)
    clauses, files, i = [], [], 0
    while i < len(lines):
        m = HEAD.match(lines[i])
        if m:
            c = dict(head=dict(verdict=m.group(1), file=m.group(2), line=int(m.group(3)), cmd=m.group(4)), minus=[], plus=[])
            clauses.append(c)
            i += 1
            if m.group(1) == "FAIL":
                if i < len(lines) and lines[i].startswith("command unknown"):
                    i += 1
                    continue
                while i < len(lines) and (lines[i].startswith("--- ") or lines[i].startswith("+++ ")):
                    i += 1
                while i < len(lines) and HUNK.match(lines[i]):
                    h = HUNK.match(lines[i])
                    a, b = (int(h.group(k)) if h.group(k) is not None else 1 for k in (2, 4))
                    i += 1
                    while (a > 0 or b > 0) and i < len(lines):
                        s = lines[i]
                        if s.startswith("-"):
                            c["minus"].append(s[1:])
                            a -= 1
                        elif s.startswith("+"):
                            c["plus"].append(s[1:])
                            b -= 1
                        else:
                            a, b = a - 1, b - 1
                        i += 1
            continue
        m = FILE.match(lines[i])
        if m:
            files.append(dict(verdict=m.group(1), file=m.group(2)))
            i += 1
            continue
        case.local.append(dict(what="line of the report of coin test that is none of its forms", observed=lines[i], expected="", event=len(case.events)))
        i += 1
    return clauses, files


class Layout:
    """Items (entries and clauses) in reading order, spread over files."""

    def __init__(self, rng, items, segments):
        self.items, self.segments, self.rng = items, segments, rng       # segments: (file, start, end), nested or disjoint
        self.tight = [rng.random() < 0.3 for _ in items]

    def files(self, keep, texts, share=None):
        """The files with the clauses in keep only; clauses: (cmd words).  share: the numbers of clauses that make
        up a file of their own, and of those that stand for its second inclusion."""
        owner = ["main.coin"] * len(self.items)
        for name, a, b in self.segments:
            for i in range(a, b):
                owner[i] = name
        out = {"main.coin": []}
        opened = set()
        for i, it in enumerate(self.items):
            f = owner[i]
            for name, a, b in self.segments:
                if i == a and name not in opened:
                    parent = "main.coin"
                    for n2, a2, b2 in self.segments:
                        if n2 != name and n2 in opened and a2 <= a and b <= b2:
                            parent = n2
                    opened.add(name)
                    out[name] = []
                    out[parent].append(dict(kind="raw", lines=["include " + name]))
            if it["kind"] == "clause":
                if it["n"] not in keep:
                    continue
                for group in share or ():
                    if it["n"] == group[0]:
                        out[f].append(dict(kind="raw", lines=["include shared.coin"]))
                if share and it["n"] in share[1]:
                    continue
                if share and it["n"] in share[0]:
                    out.setdefault("shared.coin", [])
                    f = "shared.coin"
                out[f].append(dict(kind="raw", lines=["test" + it["gap"] + it["cmd"]] + texts.get(it["n"], []) + [it["end"]], tight=self.tight[i], loc=""))
            else:
                out[f].append(it)
        return list(out.items())


def c23_run(chk, case, d, rng, plan):
    plan = list(plan)
    f = Gen(rng, coms=rng.choice([1, 1, 2]), accts=rng.choice([3, 6]), txns=rng.choice([2, 4, 8]), span=rng.choice([1, 3, 15]), assertions=0.2, chain=False, decs=(2, 2, 0), notes=0.3, tags=0.2)
    heads = [e for e in f.entries if e["kind"] != "txn"]
    clauses = []
    for n, p in enumerate(plan):
        words = command(rng, f, p["kind"], n)
        clauses.append(dict(kind="clause", n=n, words=words, cmd=rng.choice([" ", " ", "  "]).join(words), gap=rng.choice([" ", " ", "  "]), end=rng.choice(["end test", "end test", "  end test", "end test "])))
    # clauses in order among the transactions
    body = list(f.txns)
    pos = sorted(rng.randrange(len(body) + 1) for _ in clauses)
    if rng.random() < 0.4:
        pos = [len(body)] * len(clauses)
    items, k = list(heads), 0
    for i in range(len(body) + 1):
        while k < len(clauses) and pos[k] == i:
            items.append(clauses[k])
            k += 1
        if i < len(body):
            items.append(body[i])
    share = None
    if rng.random() < 0.25:
        # some clauses are in a file that is included a second time later on
        at = [i for i, it in enumerate(items) if it["kind"] == "clause" and plan[it["n"]]["in"] == "main"]
        if at:
            a = rng.choice(at)
            b = a + 2 if a + 1 in at and rng.random() < 0.5 else a + 1
            x = rng.randrange(b, len(items) + 1)
            copies = [dict(c) for c in items[a:b]]
            first = list(items[a:b])
            items[x:x] = copies
            clauses = [it for it in items if it["kind"] == "clause"]
            plan = [dict(plan[c["n"]]) for c in clauses]
            for n, c in enumerate(clauses):
                c["n"] = n
            share = ([c["n"] for c in first], [c["n"] for c in copies])
    at = [i for i, it in enumerate(items) if it["kind"] == "clause"]
    segments = []
    ins = [n for n, p in enumerate(plan) if p["in"] == "inc"]
    if ins:
        a, b = at[ins[0]], at[ins[-1]] + 1
        segments.append(("inc.coin", a, b))
        if b - a > 2 and not share and rng.random() < 0.4:
            x = rng.randrange(a + 1, b - 1)
            segments.append(("deep.coin", x, rng.randrange(x, b - 1) + 1))
    lay = Layout(rng, items, segments)
    st = style(rng)

    def write(sub, keep, texts, share=None):
        p = os.path.join(d, sub)
        os.mkdir(p)
        fs = lay.files(keep, texts, share)
        write_files(p, fs, f.dec, st)
        return p, [n for n, _ in fs]

    def lines_of(p, names):
        return [dict(name=n, lines=read_lines(os.path.join(p, n))) for n in sorted(names)]
    outs = []
    for c in clauses:
        if plan[c["n"]]["kind"] == "unknown":
            outs.append(dict(known=False, out=[]))
            continue
        before = [x["n"] for x in clauses if x["n"] < c["n"] and plan[x["n"]]["kind"] == "mod"]
        for attempt in range(2):
            p, names = write("alone%d-%d" % (c["n"], attempt), before + [c["n"]], {})
            rc, out, err = coin(chk, p, ["test", os.path.join(p, "main.coin")])
            if rc == 0 or attempt:
                break
            # the command itself is refused (no conversion, say)
            plan[c["n"]] = dict(plan[c["n"]], kind="show")
            c["words"] = [rng.choice(["accounts", "commodities"])]
            c["cmd"] = c["words"][0]
            share = None if share and c["n"] in share[0] + share[1] else share
            chk.count("commands replaced")
        # the filled text of the last clause
        own = [n for n, a, b in segments if any(items[i] is c for i in range(a, b))]
        ls = read_lines(os.path.join(p, own[-1] if own else "main.coin"))
        heads_at = [i for i, s in enumerate(ls) if s == "test" + c["gap"] + c["cmd"]]
        text = []
        if rc == 0 and heads_at:
            j = heads_at[-1] + 1
            while j < len(ls) and ls[j].strip() != "end test":
                text.append(ls[j])
                j += 1
        else:
            case.local.append(dict(what="a clause on its own cannot be run", expected="exit status 0", observed=[rc, err[-300:]], event=0))
            return
        outs.append(dict(known=True, out=text))
    cli, n = None, 0
    texts = {}
    for c, p, o in zip(clauses, plan, outs):
        t = p["text"]
        texts[c["n"]] = [] if t == "empty" else [""] if t == "blank" else list(o["out"]) if t == "right" else wrong(rng, o["out"])
    if share:
        for n, m in zip(*share):
            texts[m] = texts[n]
        chk.count("files included twice")
    p, names = write("all", [c["n"] for c in clauses], texts, share)
    keep_files(case, p)
    case.add("files", fs=lines_of(p, names), main="main.coin", outs=outs)
    # the same commands over a database with the same entries
    cd = os.path.join(d, "cli")
    os.mkdir(cd)
    write_files(cd, standard_files(list(heads) + list(f.txns)), f.dec, Style(plain=True))
    for c, pl, o in zip(clauses, plan, outs):
        if pl["kind"] == "mod":
            break
        if not o["known"] or c["words"][0] in ("format", "fmt", "f"):
            continue
        rc, out, err = coin(chk, cd, c["words"])
        case.add("cli", i=c["n"] + 1, out=out_lines(out) if rc == 0 else ["failed", err[-200:]])
    verbose = rng.random() < 0.5
    rel = rng.random() < 0.3
    arg = "main.coin" if rel else os.path.join(p, "main.coin")
    for v in (verbose, True, False):
        rc, out, err = coin(chk, p, ["test"] + (["-v"] if v else []) + [arg], cwd=p)
        case.replay.setdefault("commands", []).append(["coin", "test"] + (["-v"] if v else []) + ["main.coin"])
        cs, fs = parse_report(case, out)
        case.add("report", verbose=v, clauses=cs, files=fs)
        case.add("after", fs=lines_of(p, sorted(os.listdir(p))))
    chk.count("clauses", len(clauses))
    case.weight = 10 + sum(len(json.dumps(e)) for e in case.events) // 500



def rand_plan(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    plan = []
    for _ in range(n):
        k = rng.choice(["show", "show", "show", "show", "show", "silent", "mod", "unknown"] if rng.random() < 0.7 else ["show"])
        plan.append(dict(kind=k, text="wrong" if k == "unknown" else rng.choice(["right", "right", "wrong", "wrong", "blank", "empty", "empty"]), **{"in": "main"}))
    if rng.random() < 0.5:
        a = rng.randrange(n)
        for i in range(a, rng.randrange(a, n) + 1):
            plan[i]["in"] = "inc"
    return plan


MC_TESTS = "SPECIFICATION MCSpec\nCONSTANTS MaxClauses = %d\nINVARIANTS Found VerdictsOk FilledPass FillOnce FilesOk DiffsOk Emitted\nCHECK_DEADLOCK FALSE\n"


def c23(chk):
    chk.build("coin")
    scn = emitted(chk.model("tests", "MC_TestRunner", MC_TESTS % scale(chk, 2, 3), workers=8))

    def enumerated(s):
        return lambda chk, case, d, rng: c23_run(chk, case, d, rng, s["plan"])
    chk.run_cases([("enumerated-%d" % i, enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 250, 3000)))] +
                  [("tests-%d" % i, lambda chk, case, d, rng: c23_run(chk, case, d, rng, rand_plan(rng))) for i in range(scale(chk, 350, 3000))])
    chk.validate("Trace_TestRunner")
    return chk.finish("model_checking", "test files enumerated by MC_TestRunner and random ones: clauses with right, wrong, blank and empty texts, between random entries and in included files, run with and without -v; "
                      "non-trivial when distinct", LEDGER_ASSUMPTIONS)
