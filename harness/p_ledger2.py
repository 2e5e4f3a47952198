"""Checks of conversion, files, tags, determinism, statistics, export and listings."""
import hashlib, itertools, json, os, re, resource
from core import CheckError
from ledger import *
from p_ledger import *


# -- C10 ----------------------------------------------------------------------------------------------
def spread_prices(rng, prices, top):
    """Files for the prices: prices.coin or any number of .prices files, some of them among the transactions."""
    prices = list(prices)
    rng.shuffle(prices)
    late = [p for p in prices if rng.random() < 0.2] if rng.random() < 0.4 else []
    prices = [p for p in prices if p not in late]
    if rng.random() < 0.5:
        return [("prices.coin", prices)], late
    k = rng.choice([1, 2, 3])
    return [("%s.prices" % n, prices[i::k]) for i, n in enumerate(sorted(rng.sample(["a", "b", "CAD", "x-y", "zz"], k)))], late


def conversions(chk, case, d, rng, coms, dec, prices, pairs):
    """Asks for the conversion of one amount for each pair, in two ways and twice."""
    entries = [commodity(c, dec[c], default=(i == 0)) for i, c in enumerate(coms)]
    accs = [account("X:" + c, c) for c in coms]
    txns, qs = [], []
    for i, (c, to) in enumerate(pairs):
        accs += [account("T%d" % i, to), account("T%d:S" % i, c)]
        q = rng.choice([1, 10 ** dec[c], rng.randrange(1, 99), rng.randrange(1, 20000), -rng.randrange(1, 5000)])
        qs.append(q)
        txns.append(txn(DAY_2020 + rng.randrange(30), "x", [post("T%d:S" % i, q, c), post("X:" + c, -q, c)]))
    pfiles, late = spread_prices(rng, prices, d)
    rng.shuffle(accs)
    order = list(txns) + late
    rng.shuffle(order)
    files = [("commodities.coin", entries)] + pfiles + [("accounts.coin", accs), ("transactions.coin", order)]
    g = Fixed(entries, dec, files)
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    case.add("resolve")
    first = {}
    for rep in range(2):
        for i, (c, to) in enumerate(pairs):
            args = ["balance", "-z", "T%d" % i]
            rc, out, err = coin(chk, d, args)
            b = read_balance(rc, out)
            val = next((r[1] for r in b["rows"] if r[-1] == "T%d" % i), "" if rc != 0 and not out else "?")
            case.add("convert", **{"from": c, "to": to, "q": qs[i], "obs": dict(ok=rc == 0, val=val), "args": " ".join(args)})
            if rep:
                case.add("same", what="balance T%d" % i, first=first[i], again=val)
                continue
            first[i] = val
            args = ["register", "-r", "T%d" % i]
            rc, out, err = coin(chk, d, args)
            r = read_register(rc, out, query(r=True))
            val2 = r["rows"][0][5] if r["rows"] and len(r["rows"][0]) > 5 else "" if rc != 0 and len(out.splitlines()) <= 1 else "?"
            if rc == 0 or b["ok"]:
                case.add("same", what="register T%d" % i, first=val, again=val2)
    keep_files(case, d, [["coin", "balance", "-z", "T0"]])


def c10_case(chk, case, d, rng):
    coms = rng.sample(["CAD", "USD", "EUR", "JPY", "ABC", "X1"], rng.choice([2, 3, 4, 5, 6]))
    dec = {c: rng.choice([2, 2, 0, 1, 3, 4]) for c in coms}
    edges = [(a, b) for a in coms for b in coms if a != b]
    rng.shuffle(edges)
    edges = edges[:rng.choice([len(coms) - 1, len(coms), len(coms) * 2, len(edges)])]
    prices = []
    for a, b in edges:
        for day in rng.sample(range(40), rng.choice([1, 1, 2, 4])):
            prices.append(price(DAY_2020 + day, a, b, 0 if rng.random() < 0.08 else rng.randrange(1, 2 * 10 ** dec[b] + 2)))
    pairs = [(a, b) for a in coms for b in coms if a != b]
    conversions(chk, case, d, rng, coms, dec, prices, rng.sample(pairs, min(len(pairs), 6)))


def c10_enumerated(scn, coms):
    def fn(chk, case, d, rng):
        dec = dict(A=2, B=0, C=3, D=2)
        prices = [dict(kind="price", day=DAY_2020 + p["day"], com=p["com"], cur=p["cur"], val=p["val"]) for p in scn["prices"]]
        pairs = [(a, b) for a in coms for b in coms if a != b]
        rng.shuffle(pairs)
        conversions(chk, case, d, rng, coms, dec, prices, pairs[:6])
    return fn


def c10(chk):
    chk.build("coin")
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS Coms = {%s}\n MaxPrices = %d\n Emit = %s\nINVARIANTS ChainOrNone Direct Latest OrderFree Opposite Emitted\n"
           "CHECK_DEADLOCK FALSE\n")
    three, four = ["A", "B", "C"], ["A", "B", "C", "D"]
    lit = lambda cs: ", ".join('"%s"' % c for c in cs)
    s3 = emitted(chk.model("three commodities", "MC_Prices", cfg % (lit(three), scale(chk, 4, 5), "TRUE"), workers=8))
    s4 = emitted(chk.model("four commodities", "MC_Prices", cfg % (lit(four), scale(chk, 3, 4), "TRUE"), workers=8))
    mk = [("graph3-%d" % i, c10_enumerated(s, three)) for i, s in enumerate(sample(chk, s3, scale(chk, 60, 700)))]
    mk += [("graph4-%d" % i, c10_enumerated(s, four)) for i, s in enumerate(sample(chk, s4, scale(chk, 60, 700)))]
    chk.run_cases(mk + [("prices-%d" % i, c10_case) for i in range(scale(chk, 200, 1500))])
    chk.validate("Trace_Ledger")
    from p_values import c10_big
    chk.validate("Trace_Amounts", cases=chk.run_cases([("big-%d" % i, c10_big) for i in range(scale(chk, 100, 1500))]), constants="CONSTANT LimbDigits = 4")
    return chk.finish("model_checking", "price graphs enumerated by MC_Prices and random ones with several dates per pair, spread over files in any order; "
                      "each conversion asked for in two reports and two runs; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C16 ----------------------------------------------------------------------------------------------
DBFILE = re.compile(r"(?<![\w/.$])(?:\./)?([\w.-]+(?:/[\w.-]+)*\.(?:coin|prices|inc|txt)):(?=\d)")


def item(e):
    if e["kind"] == "include":
        return dict(kind="include", e=dict(path=e["spec_path"], base=e["base"]))
    if e["kind"] == "txn":
        return dict(kind="txn", e={k: v for k, v in e.items() if k not in ("kind",)})
    return dict(kind=e["kind"], e={k: v for k, v in e.items() if k not in ("kind", "extra")})


class Layout:
    """Splits lists of entries over files with includes."""

    def __init__(self, rng, d):
        self.rng, self.d = rng, d
        self.files = {}            # name -> entries
        self.n = 0
        self.env = {}

    def add(self, name, entries, depth=0):
        self.files[name] = None
        self.files[name] = self.split(name, list(entries), depth)

    def fresh(self, wild_group=None):
        self.n += 1
        sub = self.rng.choice(["", "inc/", "inc/deep/", "2020/"])
        return sub + "p%d%s" % (self.n, self.rng.choice([".inc", ".inc", ".txt", ".coin" if sub else ".inc"]))

    def include_line(self, frm, target, wild=None):
        """An include entry for the file frm denoting target (a path in the database directory, possibly with wildcards)."""
        rng = self.rng
        here = os.path.dirname(frm)
        k = rng.random()
        if k < 0.2:
            text, spec, base = "/" + target, target, "cwd"
        elif k < 0.4:
            v = "VAR%d" % len(self.env)
            cut = target.split("/")
            head, tail = ("/".join(cut[:-1]), cut[-1])
            root = "." if re.search(r"[*?\[\\$]", self.d) else self.d      # a variable is a part of the pattern
            if rng.random() < 0.5 or "*" in target:
                self.env[v] = os.path.join(root, head) if head else root
                text = rng.choice(["$%s/%s", "${%s}/%s"]) % (v, tail)
            else:
                self.env[v] = os.path.join(root, target)
                text = "$" + v
            spec, base = target, "cwd"
        else:
            rel = os.path.relpath(target, here or ".")
            spec = rel
            base = "file"
            text = rel
            if k < 0.55 and "/" not in rel:
                text = spec = "./" + rel
            elif k < 0.7 and len(rel) > 3 and "." not in rel[:2] and "*" not in rel:
                v = "VAR%d" % len(self.env)
                self.env[v] = rel[1:3]
                text = rel[0] + "${%s}" % v + rel[3:]
        return dict(kind="include", text=text, spec_path=spec, base=base)

    def split(self, name, entries, depth):
        rng = self.rng
        if depth > 3:
            return entries
        out = entries
        for _ in range(rng.choice([0, 1, 1, 2]) if depth else rng.choice([0, 1, 2, 3])):
            if not out:
                break
            a = rng.randrange(len(out))
            b = rng.randrange(a, min(len(out), a + 6)) + 1
            if any(x["kind"] == "include" for x in out[a:b]):
                continue
            seg = out[a:b]
            if rng.random() < 0.3:                       # several files by wildcard
                self.n += 1
                sub = rng.choice(["w%d/" % self.n, "w%d/x/" % self.n])
                names = sorted(rng.sample(["a1", "a2", "a3", "b1", "a10", "aa"], rng.choice([1, 2, 3])))
                pat = rng.choice(["*.inc", "?*.inc", "*"])
                if rng.random() < 0.4:
                    names = [n for n in names if n.startswith("a")] or ["a1"]
                    pat = "a*.inc"
                cuts = sorted(rng.randrange(len(seg) + 1) for _ in range(len(names) - 1))
                cuts = [0] + cuts + [len(seg)]
                inc = self.include_line(name, sub + pat)
                if rng.random() < 0.3:
                    dirpat = inc["spec_path"]
                for i, n in enumerate(names):
                    self.add(sub + n + ".inc", seg[cuts[i]:cuts[i + 1]], depth + 1)
            else:
                t = self.fresh()
                inc = self.include_line(name, t)
                self.add(t, seg, depth + 1)
            out = out[:a] + [inc] + out[b:]
        if rng.random() < 0.1:                            # a wildcard that matches nothing
            out = out + [self.include_line(name, "none/*.inc")]
        return out


def render_layout(d, lay, dec, st):
    files = []
    for name in sorted(lay.files):
        entries = []
        for e in lay.files[name]:
            if e["kind"] == "include":
                entries.append(e)
            else:
                entries.append(dict(json.loads(json.dumps(e))))
        files.append((name, entries))
    raw = []
    for name, entries in files:
        lst = []
        for e in entries:
            if e["kind"] == "include":
                lst.append(dict(kind="raw", lines=["include " + ("  " if st.pick(0.2) else "") + e["text"]]))
            else:
                lst.append(e)
        raw.append((name, lst))
    write_files(d, raw, dec, st)
    fs = []
    for (name, entries) in files:
        fs.append(dict(name=name, items=[item(e) for e in entries]))
    return fs


def low_files():
    resource.setrlimit(resource.RLIMIT_NOFILE, (256, 256))


def c16_run(chk, case, d, args, env, exe="coin"):
    argv = [chk.exe(exe)] + list(args)
    rc, out, err = run(argv, cwd=d, env=db_env(d, **env), preexec=low_files)
    chk.count("runs")
    fix = lambda s: DBFILE.sub(lambda m: ("" if m.group(1).startswith("DB/") else "DB/") + m.group(1) + ":", s.replace(d + "/", "DB/").replace(in_json(d) + "/", "DB/"))
    return rc, fix(out), fix(err)


def c16_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 2, 3]), accts=rng.choice([3, 6]), txns=rng.choice([4, 10, 16]), span=rng.choice([4, 40]), assertions=0.2 if rng.random() < 0.6 else 0)
    lay = Layout(rng, d)
    by = lambda k: [e for e in g.entries if e["kind"] == k]
    lay.add("commodities.coin", by("commodity"))
    prices, accs, txns = by("price"), by("account"), by("txn")
    if rng.random() < 0.3:
        # move the last accounts and the last prices somewhere else, keeping the order of each kind
        k = rng.randrange(len(accs) + 1)
        txns = accs[k:] + txns
        accs = accs[:k]
        for p in prices[:]:
            if rng.random() < 0.3 and p is prices[-1]:
                txns.insert(rng.randrange(len(txns) + 1), prices.pop())
    if rng.random() < 0.5:
        if prices or rng.random() < 0.5:
            lay.add("prices.coin", prices)
        if rng.random() < 0.3:
            lay.add("old.prices", [])
    else:
        k = rng.choice([1, 2, 3])
        names = sorted(rng.sample(["a", "B", "m-1", "m10", "z_"], k))
        cuts = [0] + sorted(rng.randrange(len(prices) + 1) for _ in range(k - 1)) + [len(prices)]
        for i, n in enumerate(names):
            lay.add(n + ".prices", prices[cuts[i]:cuts[i + 1]])
    lay.add("accounts.coin", accs)
    if rng.random() < 0.5:
        lay.add("transactions.coin", txns)
        if rng.random() < 0.3:
            lay.add("extra.coin", [rng.choice(g.txns)])          # not read at all
    else:
        k = rng.choice([1, 2, 4])
        names = sorted(rng.sample(["2019", "2020", "2020-1", "Tx", "a", "acc", "zz", "prices-x", "my.accounts"], k))
        cuts = [0] + sorted(rng.randrange(len(txns) + 1) for _ in range(k - 1)) + [len(txns)]
        for i, n in enumerate(names):
            lay.add(n + ".coin", txns[cuts[i]:cuts[i + 1]])
    # now and then something that cannot or must not be read
    broken = rng.random()
    name = rng.choice(sorted(lay.files))
    if broken < 0.12:
        what = rng.choice(["missing", "self", "loop", "twice", "selfwild"])
        if what == "twice":                                   # a file of transactions
            name = rng.choice([n for n in sorted(lay.files) if any(e["kind"] == "txn" for e in lay.files[n])])
        ents = lay.files[name]
        at = rng.randrange(len(ents) + 1)
        if what == "missing":
            inc = lay.include_line(name, rng.choice(["nope.inc", "inc/nope.coin"]))
        elif what == "self":
            inc = dict(kind="include", text=os.path.basename(name), spec_path=os.path.basename(name), base="file")
        elif what == "selfwild":
            inc = dict(kind="include", text="*." + name.rsplit(".", 1)[1], spec_path="*." + name.rsplit(".", 1)[1], base="file")
        elif what == "loop":
            rel = os.path.relpath(name, "inc")
            lay.files["inc/loop.inc"] = [dict(kind="include", text=rel, spec_path=rel, base="file")]
            inc = lay.include_line(name, "inc/loop.inc")
        else:
            t = rng.choice(g.txns)
            lay.files["inc/twice.inc"] = [t]
            inc = lay.include_line(name, "inc/twice.inc")
            ents.insert(at, inc)
        ents.insert(at, inc)
        chk.count("layout " + what)
    elif broken < 0.27:                                       # files named several times, by themselves and by wildcards
        name = rng.choice([n for n in sorted(lay.files) if any(e["kind"] == "txn" for e in lay.files[n])])
        names = rng.sample(["a1", "a2", "ab", "b1"], rng.choice([1, 2, 3]))
        for n in names:
            lay.files["tw/%s.inc" % n] = [rng.choice(g.txns)] if rng.random() < 0.8 else []
        pats = ["tw/*.inc", "tw/a*.inc", "tw/*", "tw/?1.inc"] + ["tw/%s.inc" % n for n in names]
        ents = lay.files[name]
        for pat in rng.choices(pats, k=rng.choice([2, 2, 3])):
            ents.insert(rng.randrange(len(ents) + 1), lay.include_line(name, pat))
        chk.count("layout several times")
    chk.count("files", len(lay.files))
    st = style(rng)
    fs = render_layout(d, lay, g.dec, st)
    case.add("database", fs=fs)
    env = lay.env
    rc, out, err = c16_run(chk, case, d, ["stats"], env)
    case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err))
    rc, out, err = c16_run(chk, case, d, [], env, exe="coin2html")
    case.add("export", obs=read_export(rc, out))
    rc, out, err = c16_run(chk, case, d, ["balance", "-z"], env)
    case.add("balance", q=query(z=True), obs=read_balance(rc, out))
    q = query(acct="Root", r=True, f=True, l=40)
    rc, out, err = c16_run(chk, case, d, ["register", "-r", "-f", "-l", "40", "Root"], env)
    case.add("register", q=q, obs=read_register(rc, out, q))
    rc, out, err = c16_run(chk, case, d, ["stats"], env)
    case.add("stats", q=query(), obs=read_stats(rc, out))
    keep_files(case, d, [["coin", "stats"]])
    case.replay["env"] = env


def c16_enumerated(scn):
    """A layout of MC_Files: its three entries become transactions."""
    def fn(chk, case, d, rng):
        t = [txn(DAY_2020 + rng.choice([0, 0, 1]), "t%d" % i, [post("A", 100 + i, "CAD"), post("B", -100 - i, "CAD")]) for i in range(4)]
        lay = Layout(rng, d)
        for f in scn["fs"]:
            lay.files[f["name"]] = [t[i["e"]] if i["kind"] != "include" else
                                    dict(kind="include", text=i["e"]["path"], spec_path=i["e"]["path"], base="file") for i in f["items"]]
        lay.files["commodities.coin"] = [commodity("CAD", default=True)]
        lay.files["accounts.coin"] = [account("A"), account("B")]
        fs = render_layout(d, lay, {"CAD": 2}, Style(plain=True))
        case.add("database", fs=fs)
        rc, out, err = c16_run(chk, case, d, ["stats"], {})
        case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err))
        q = query(acct="A", f=True)
        rc, out, err = c16_run(chk, case, d, ["register", "-f", "A"], {})
        case.add("register", q=q, obs=read_register(rc, out, q | dict(l=12)))
        keep_files(case, d, [["coin", "register", "-f", "A"]])
    return fn


def c16(chk):
    chk.build("coin", "coin2html")
    cfg = "SPECIFICATION MCSpec\nCONSTANTS MaxSteps = %d\n Emit = TRUE\nINVARIANTS SameEntries Unreadable Emitted\nCHECK_DEADLOCK FALSE\n" % scale(chk, 2, 3)
    scn = emitted(chk.model("layouts", "MC_Files", cfg, workers=8))
    chk.run_cases([("layout-%d" % i, c16_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 250, 2500)))] +
                  [("ledger-%d" % i, c16_case) for i in range(scale(chk, 200, 1500))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "layouts enumerated by MC_Files and random ledgers spread over files with nested, wildcard, variable and failing includes; "
                      "non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C17 ----------------------------------------------------------------------------------------------
def c17_observe(chk, case, d, rng, g, keys, vals):
    add_export(chk, case, d)
    for _ in range(2):
        q = query(v=rng.random() < 0.7, a=rng.random() < 0.5)
        if rng.random() < 0.4:
            q.update(hasp=True, p=rand_alts(rng, keys))
        ask_tags(chk, case, d, q)
    for _ in range(5):
        t = dict(inv=rng.random() < 0.4, key=rand_alts(rng, keys), hasval=rng.random() < 0.6, val=[])
        if t["hasval"]:
            t["val"] = rand_alts(rng, vals + [""])
        q = query(hast=True, t=t)
        if rng.random() < 0.5:
            ask_balance(chk, case, d, dict(q, z=True))
        else:
            ask_register(chk, case, d, dict(q, acct="Root", r=True, l=30, n=rng.random() < 0.5))


def c17_notes_case(notes):
    def fn(chk, case, d, rng):
        txns = []
        for i, n in enumerate(notes):
            t = txn(DAY_2020 + i // 4, "d%d" % i, [post("A", 100 + i, "CAD"), post("B")])
            where = rng.randrange(3)
            if where == 0:
                t["notes"] = [n]
            elif where == 1:
                t["posts"][0]["notes"] = [n]
            else:
                t["posts"][1]["notes"] = [n]
                if rng.random() < 0.5:
                    t["notes"] = [rng.choice(notes)]
            txns.append(t)
        entries = [commodity("CAD", default=True), account("A"), account("B")] + txns
        g = Fixed(entries, {"CAD": 2})
        load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
        case.add("resolve")
        c17_observe(chk, case, d, rng, g, ["a", "aa", "a-", "-", "-a"], ["a", "a:", "#a", "a a", ":", "-"])
        keep_files(case, d)
    return fn


TAGCHARS = "aAbB0_-/#:, .;\"'é@=&<(*"


def rand_note(rng):
    k = rng.random()
    if k < 0.3:
        return note_text(rng, 0.8)
    s = "".join(rng.choice(TAGCHARS if rng.random() < 0.5 else "a#:, b") for _ in range(rng.randrange(1, 14)))
    if rng.random() < 0.6:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + "#" + rng.choice(["k", "key", "K-1", "a/b", "_x"]) + rng.choice([":", ": ", "", " :", " "]) + s[i:]
    return s.strip() or "#a"


def c17_case(chk, case, d, rng):
    g = Gen(rng, coms=1, accts=4, txns=rng.choice([6, 15]), span=10, assertions=0, abbrev=0, closed=0)
    for t in g.txns:
        t["notes"] = [rand_note(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        for p in t["posts"]:
            p["notes"] = [rand_note(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    case.add("resolve")
    c17_observe(chk, case, d, rng, g, ["k", "key", "K-1", "a/b", "_x"] + KEYS, VALS)
    keep_files(case, d)


def c17(chk):
    chk.build("coin", "coin2html")
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS MaxLen = %d\n Alphabet <- %s\nINVARIANTS KeysInText ValuesTrimmed SomeTag OneValue Emitted\n"
           "CHECK_DEADLOCK FALSE\n" % (scale(chk, 6, 7), "Alpha5"))
    notes = sorted({s["note"].strip() for s in emitted(chk.model("notes", "MC_Tags", cfg, workers=8))} - {""})
    tagged = [n for n in notes if "#a" in n]
    pick = sample(chk, tagged, scale(chk, 2400, 16000)) + sample(chk, notes, scale(chk, 300, 2000))
    r = chk.rng("notes")
    r.shuffle(pick)
    chk.count("enumerated notes", len(pick))
    chk.run_cases([("notes-%d" % i, c17_notes_case(pick[i:i + 30])) for i in range(0, len(pick), 30)] +
                  [("ledger-%d" % i, c17_case) for i in range(scale(chk, 120, 1200))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "every note up to a length over the characters that matter for tags (sampled), and random notes in random ledgers, with tag "
                      "expressions in tags, balance and register; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C19 ----------------------------------------------------------------------------------------------
def c19_case(chk, case, d, rng):
    two = rng.random() < 0.5
    g = Gen(rng, coms=2 if two else 1, accts=rng.choice([2, 3, 5]), txns=rng.choice([4, 10, 18]), span=rng.choice([2, 5, 30]), dups=0.35,
            codes=0.4, unbalanced=0.4, assertions=0.1, wrong=0, decs=(2, 2, 0, 3), notes=0.1)
    for t in list(g.txns):
        if rng.random() < 0.25:                              # nearly a duplicate
            u = json.loads(json.dumps(t))
            k = rng.choice(["code", "amount", "order", "desc", "day", "acct", "more", "left"] + ["com"] * 2 * two)
            if k == "code":
                u["code"] = rng.choice(["", "12", "zz"])
            elif k == "desc":
                u["desc"] = "other"
            elif k == "day":
                u["day"] += rng.choice([1, -1])
            elif k == "order":
                u["posts"].reverse()
            elif k == "amount" and len(u["posts"]) == 2 and all(p["has"] for p in u["posts"]) and u["posts"][0]["com"] == u["posts"][1]["com"]:
                x = rng.choice([1, 100])
                u["posts"][0]["q"] += x
                u["posts"][1]["q"] -= x
            elif k == "acct" and len(u["posts"]) > 1:
                same = [n for n in g.names if g.com[n] == u["posts"][0]["com"]]
                if same and u["posts"][0]["has"]:
                    u["posts"][0]["acct"] = rng.choice(same)
                    if len({u["posts"][0]["com"]} | {p["com"] for p in u["posts"] if p["has"]}) > 1:
                        u = t
            elif k == "com" and len(u["posts"]) == 2 and all(p["has"] for p in u["posts"]):    # the same numbers of something else
                if len({p["com"] for p in u["posts"]}) == 1 and u["posts"][0]["q"] == -u["posts"][1]["q"]:    # balances in any commodity
                    other = [x for x in g.coms if x != u["posts"][0]["com"]][0]
                    for p in u["posts"]:
                        p["com"] = other
            elif k == "left" and all(p["has"] for p in u["posts"]) and len({p["com"] for p in u["posts"]}) == 1 and u["posts"]:
                p = rng.choice(u["posts"])
                p.update(has=False, asserted=False, bal=0, balcom="", com="", q=0)
            for p in u["posts"]:
                p.update(asserted=False, bal=0, balcom="")
            g.txns.insert(rng.randrange(len(g.txns) + 1), u)
    if two:
        c, e = g.coms
        for _ in range(rng.choice([1, 2, 3])):                # bad conversions and near misses
            a = rng.choice([n for n in g.names + ["Unbalanced"] if g.com[n] == c] or ["Unbalanced"])
            b = rng.choice([n for n in g.names if g.com[n] == e] or [""])
            if not b or g.com[a] != c:
                continue
            q = rng.randrange(1, 500) * 10 ** g.dec[c]
            r = q // 10 ** g.dec[c] * 10 ** g.dec[e]
            r += rng.choice([0, 0, 1, -r])
            posts = [post(a, q, c), post(b, -r if rng.random() < 0.8 else r, e)]
            if rng.random() < 0.5:
                posts.reverse()
            if rng.random() < 0.2:
                posts.append(post(a, 0, c))
            g.txns.insert(rng.randrange(len(g.txns) + 1), txn(g.start + rng.randrange(g.span), "conv", posts))
    g.entries = [e for e in g.entries if e["kind"] != "txn"] + [json.loads(json.dumps(t)) for t in g.txns]
    g.txns = [e for e in g.entries if e["kind"] == "txn"]
    load_case(case, g, d, style(rng), big=rng)
    case.add("resolve")
    ask_stats(chk, case, d, query(d=True))
    for _ in range(4):
        q = g.rand_query(u=rng.random() < 0.5, c=rng.random() < 0.5, d=rng.random() < 0.4, hasp=False, hast=False)
        ask_stats(chk, case, d, q)
    keep_files(case, d)


def c19_enumerated(scn):
    def fn(chk, case, d, rng):
        g = Enumerated(scn)
        load_case(case, g, d)
        case.add("resolve")
        ask_stats(chk, case, d, query(d=True))
        ask_stats(chk, case, d, query(u=True, c=True, hasb=rng.random() < 0.5, b=18262))
        ask_stats(chk, case, d, query(d=True, hase=True, e=18262))
        keep_files(case, d)
    return fn


def c19(chk):
    chk.build("coin")
    scn = [s for s in mc_ledger(chk, "duplicates", "PoolStats", 2, ["StatsSound"], queries="NoQueries", workers=8) if s["accepted"]]
    chk.run_cases([("enumerated-%d" % i, c19_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 200, 2000)))] +
                  [("ledger-%d" % i, c19_case) for i in range(scale(chk, 220, 1800))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "pairs of transactions enumerated by MC_Ledger and random ledgers with duplicates, near duplicates, Unbalanced postings and "
                      "conversions at par; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C26 ----------------------------------------------------------------------------------------------
def c26_case(chk, case, d, rng):
    k = rng.choice([1, 2, 3, 5])
    coms = rng.sample(["CAD", "USD", "EUR", "JPY", "ABC", "X1", "X2"], k)
    dec = {c: rng.choice([2, 2, 0, 3, 5]) for c in coms}
    entries = [commodity(c, dec[c], default=(i == 0), name=rng.choice(["", "Money", "Some, money: (x)"]), sym=rng.choice(["", c + ".TO", "S" + c]),
                         nomarket=rng.random() < 0.4) for i, c in enumerate(coms)]
    rng.shuffle(entries)
    prices = []
    for a in coms:
        for b in coms:
            if a != b and rng.random() < 0.5:
                for day in rng.sample(range(40), rng.choice([1, 2, 5])):
                    prices.append(price(DAY_2020 + day, a, b, rng.randrange(0, 3000)))
                    if rng.random() < 0.15:               # another one of the same day, or the same once more
                        prices.append(dict(prices[-1]) if rng.random() < 0.5 else price(DAY_2020 + day, a, b, rng.randrange(0, 3000)))
    rng.shuffle(prices)
    names = c06_names(rng)
    accs = [account(n, rng.choice([""] + coms), closed=rand_closed(rng, DAY_2020, 40) if rng.random() < 0.25 else "",
                    desc=rng.choice(["", "My account", "x: y, z"])) for n in names]
    files = [("commodities.coin", entries), ("prices.coin", prices), ("accounts.coin", accs), ("transactions.coin", [])]
    load_case(case, Fixed(entries, dec, files), d, style(rng))
    for _ in range(4):
        q = query(c=rng.random() < 0.5, acct=rand_expr(rng, closure(names)) if rng.random() < 0.6 else "")
        if q["acct"].startswith("-"):
            continue
        args = ["accounts"] + (["-c"] if q["c"] else []) + ([q["acct"]] if q["acct"] else [])
        rc, out, err = coin(chk, d, args)
        cmd_note(case, args)
        case.add("accounts", q=q, obs=read_table(rc, out, 3), args=" ".join(args))
    rc, out, err = coin(chk, d, ["commodities"])
    case.add("commodities", obs=read_table(rc, out, 4))
    rc, out, err = coin(chk, d, ["commodities", "-p"])
    rows = []
    for ln in out.splitlines():
        m = re.match(r"^(\w+)(?:: (.*))?$", ln)
        rows.append([m.group(1)] + ((m.group(2) or "").replace("[", "").replace("]", "").split(", ") if m.group(2) else []) if m else ["?" + ln])
    case.add("pricestats", obs=obs(rc == 0, "", rows))
    for _ in range(3):
        c = rng.choice(coms)
        f = rng.random() < 0.5
        args = ["commodities"] + (["-f"] if f else []) + [c]
        rc, out, err = coin(chk, d, args)
        cmd_note(case, args)
        rows = [(ln.split(" ") + [""] * 4)[:4] if len(ln.split(" ")) == (4 if f else 3) else ["?" + ln] for ln in out.splitlines()]
        case.add("pricelist", q=query(acct=c, f=f), obs=obs(rc == 0, "", rows))
    keep_files(case, d)


def read_table(rc, out, n):
    rows = []
    for ln in out.splitlines():
        f = [x.strip() for x in ln.split(" | ")] if n == 4 else [x.strip() for x in ln.split("|")]
        rows.append(f if len(f) == n else ["?" + ln])
    return obs(rc == 0, "", rows)


def c26(chk):
    chk.build("coin")
    cfg = "SPECIFICATION MCSpec\nCONSTANTS MaxAccts = 3\nINVARIANTS AllOpenListed ClosedHidden Sorted Emitted\nCHECK_DEADLOCK FALSE\n"
    scn = emitted(chk.model("catalogue", "MC_Catalogue", cfg, workers=8))
    chk.run_cases([("enumerated-%d" % i, c26_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 150, 2000)))] +
                  [("catalogue-%d" % i, c26_case) for i in range(scale(chk, 250, 2500))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "catalogues of accounts enumerated by MC_Catalogue and random catalogues of commodities, prices and accounts; non-trivial when "
                      "distinct", LEDGER_ASSUMPTIONS)


def c26_enumerated(scn):
    def fn(chk, case, d, rng):
        entries = [commodity("CAD", default=True), commodity("USD")]
        accs = [account(a["name"], a["com"], closed=a["closed"]) for a in scn["accts"]]
        load_case(case, Fixed(entries, {"CAD": 2, "USD": 2}, standard_files(entries + accs)), d)
        for q in (query(), query(c=True), query(acct="a:b"), query(acct="A", c=True)):
            args = ["accounts"] + (["-c"] if q["c"] else []) + ([q["acct"]] if q["acct"] else [])
            rc, out, err = coin(chk, d, args)
            case.add("accounts", q=q, obs=read_table(rc, out, 3), args=" ".join(args))
        keep_files(case, d)
    return fn


# -- C24 ----------------------------------------------------------------------------------------------
NASTY = ["</script>", "<script>alert(1)</script>", "<!--", "-->", "<!-- <script>", "]]>", "&amp;", "&lt;", "\"", "\\", "\\\"", "\\u003c", "'", "`",
         "{{", "}}", "{{.}}", "%s%n", "é", "日本", "\u2028", "\u2029", "\x7f", "<", ">", "&", "a\tb", "</SCRIPT >", "\\n", "/", "null", "\U0001f600", "ſcript"]


def nasty(rng, first=True):
    s = "".join(rng.choice(NASTY + ["a", " ", "b", "1"]) for _ in range(rng.choice([1, 2, 3, 5])))
    s = re.sub(r"\s+", " ", s.replace("\u2028", "\u2028")) if rng.random() < 0.0 else s
    return s.strip() or "x"


def c24_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 2, 3]), accts=rng.choice([2, 5, 8]), txns=rng.choice([2, 6, 14]), span=rng.choice([3, 30]), decs=(2, 2, 0, 3, 5),
            codes=0.3, closed=0.3, assertions=0.2)
    def clean(s):
        s = s.replace(";", "").replace("\t", " ").strip()
        return s if s and not s.startswith("(") else "x" + s
    for t in g.txns:
        if rng.random() < 0.5:
            t["desc"] = clean(nasty(rng))
        if rng.random() < 0.2:
            t["code"] = rng.choice(["null", "A_1", "0", "true", "script"])
        if rng.random() < 0.4:
            t["notes"] = [nasty(rng).replace("\t", " ") for _ in range(rng.choice([1, 2]))]
        for p in t["posts"]:
            if rng.random() < 0.25:
                p["notes"] = [nasty(rng).replace("\t", " ")]
        for x in [t] + t["posts"]:
            if rng.random() < 0.1:
                x["notes"] = list(x.get("notes") or [])
                x["notes"].insert(rng.choice([0, 0, 1, 2]), "")
    for e in g.entries:
        if e["kind"] == "commodity" and rng.random() < 0.4:
            e["name"] = clean(nasty(rng))
    load_case(case, g, d, Style(rng) if rng.random() < 0.3 else Style(plain=True), big=rng)
    case.add("resolve")
    add_export(chk, case, d)
    keep_files(case, d, [["coin2html"]])


def c24_enumerated(scn):
    def fn(chk, case, d, rng):
        g = Enumerated(scn)
        load_case(case, g, d)
        case.add("load", **load_obs(chk, d))
        add_export(chk, case, d)
        keep_files(case, d, [["coin2html"]])
    return fn


def load_obs(chk, d):
    rc, out, err = coin(chk, d, ["stats"])
    return dict(ok=rc == 0, quiet=out == "", warn=warnings_of(err))


def c24(chk):
    chk.build("coin", "coin2html")
    scn = mc_ledger(chk, "orders", "PoolOrder", scale(chk, 2, 3), ["Ordered", "RunningSums", "EachPostingOnce", "ExportComplete"])
    chk.run_cases([("enumerated-%d" % i, c24_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 80, 1000)))] +
                  [("ledger-%d" % i, c24_case) for i in range(scale(chk, 300, 2500))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "ledgers enumerated by MC_Ledger and random ledgers with hostile text in names, descriptions, codes and notes; non-trivial "
                      "when distinct", LEDGER_ASSUMPTIONS)
