"""Checks of the ledger properties: scenarios for the coin program, traces validated by Trace_Ledger."""
import json, os, re
from core import CheckError
from ledger import *

LEDGER_ASSUMPTIONS = [
    "The specification takes the entries of a scenario as the generator intended them; that the parser reads them so is part of what is checked.",
    "Scenarios keep amounts small enough for TLC's 32-bit integers (amounts of any size are the subject of C11).",
    "TLC and the Go toolchain are trusted.",
]


def load_case(case, g, d, st=None, big=None):
    """With big, a generator of random numbers, the amounts may be many times as large as in the events: everything about the ledger
    but the prices is proportional to its amounts, and what the programs print is divided again (ledger.smaller)."""
    files = g.files(st) if hasattr(g, "files") else g
    if big and big.random() < 0.25:
        st = st or Style(plain=True)
        top = max([abs(x) for _, es in files for e in es if e["kind"] == "txn" for p in e["posts"] for x in (p["q"], p["bal"])] + [1])
        st.big = BIG[d] = big.choice([k for k in BIGS if k * top < 2 ** 63] or [1])
        case.replay["amounts"] = "%d times as large as in the events" % st.big
    write_files(d, files, g.dec, st or Style(plain=True))
    add_events(case, files)
    return files


def style(rng):
    return Style(rng) if rng.random() < 0.7 else Style(plain=True)


def add_load(chk, case, d):
    rc, out, err = coin(chk, d, ["stats"])
    case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err))
    return rc


def cmd_note(case, args):
    case.replay.setdefault("commands", []).append(["coin"] + list(args))


def ask(chk, case, d, what, q, args):
    rc, out, err = coin(chk, d, args)
    cmd_note(case, args)
    read = dict(balance=lambda: read_balance(rc, out), register=lambda: read_register(rc, out, q),
                aggregate=lambda: read_aggregate(rc, out, q), tags=lambda: read_tags(rc, out, q),
                stats=lambda: read_stats(rc, out))[what]
    case.add(what, q=q, obs=read(), args=" ".join(args))
    return rc, out


def ask_balance(chk, case, d, q):
    args = ["balance"] + filter_args(q)
    if q["z"]:
        args.append("-z")
    if q["l"]:
        args += ["-l", str(q["l"])]
    return ask(chk, case, d, "balance", q, args + ([q["acct"]] if q["acct"] else []))


def ask_register(chk, case, d, q):
    args = ["register"] + filter_args(q) + ["-" + o for o in "rfn" if q[o]]
    if q["l"] != 12:
        args += ["-l", str(q["l"])]
    return ask(chk, case, d, "register", q, args + [q["acct"]])


def ask_aggregate(chk, case, d, q):
    args = ["register"] + filter_args(q) + ["-" + o for o in "rc" if q[o]]
    if q["period"]:
        args.append("-" + q["period"])
    if q["cat"]:
        args.append("-bp" if q["cat"] == "payee" else "-bt")
    if q["g"] != 5:
        args += ["-g", str(q["g"])]
    if q["l"] != 12:
        args += ["-l", str(q["l"])]
    if q["o"] != "text":
        args += ["-o", q["o"]]
    return ask(chk, case, d, "aggregate", q, args + [q["acct"]])


def ask_tags(chk, case, d, q):
    args = ["tags"] + (["-v"] if q["v"] else []) + (["-a"] if q["a"] else [])
    return ask(chk, case, d, "tags", q, args + (["--", rex_text(q["p"])] if q["hasp"] else []))


def ask_stats(chk, case, d, q):
    args = ["stats"] + filter_args(q) + ["-" + o for o in "duc" if q[o]]
    return ask(chk, case, d, "stats", q, args)


def pick_account(rng, g, root=0.15):
    names = closure(g.names)
    n = "Root" if rng.random() < root else rng.choice(names)
    if rng.random() < 0.25:
        return unique_abbrev(rng, n, names)
    return n


def scale(chk, quick, thorough):
    return thorough if chk.thorough else quick


# -- C02 ----------------------------------------------------------------------------------------------
def c02_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 1, 2]), accts=rng.choice([2, 3, 5]), txns=rng.choice([4, 10, 20, 30]), span=rng.choice([3, 15, 60]),
            assertions=0.4, notes=0.05)
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    add_load(chk, case, d)
    add_export(chk, case, d)
    ask_balance(chk, case, d, query(z=True))
    keep_files(case, d)


def add_export(chk, case, d):
    rc, out, err = coin(chk, d, [], exe="coin2html")
    case.add("export", obs=read_export(rc, out))


def read_export(rc, out):
    o = dict(ok=rc == 0, valid=True, why="", commodities=[], prices=[], accounts=[], transactions=[])
    if rc != 0:
        return o
    try:
        blocks = html_blocks(out)
        o["commodities"] = [[v["id"], v["name"], str(v["decimals"])] for v in blocks["importedCommodities"].values()]
        o["prices"] = [[v["time"], v["commodity"], v["currency"], v["value"], v.get("location", "")] for v in blocks["importedPrices"] or []]
        o["accounts"] = [[v["fullName"], v["name"], v["commodity"], v.get("parent", ""), v.get("closed", ""), v.get("location", "")]
                         for v in blocks["importedAccounts"].values()]
        for k, v in blocks["importedAccounts"].items():
            if k != v["fullName"]:
                raise ValueError("account %s listed as %s" % (v["fullName"], k))
        for t in blocks["importedTransactions"] or []:
            o["transactions"].append(dict(
                posted=t["posted"], code=t.get("code", ""), description=t["description"], notes=t.get("notes") or [],
                tags=[[k, v] for k, v in sorted((t.get("tags") or {}).items())], location=t.get("location", ""),
                postings=[dict(account=p["account"], quantity=p["quantity"], balance=p.get("balance", ""),
                               asserted=p.get("balance_asserted", False), notes=p.get("notes") or [],
                               tags=[[k, v] for k, v in sorted((p.get("tags") or {}).items())]) for p in t["postings"] or []]))
    except Exception as e:
        o["valid"], o["why"] = False, "%s: %s" % (type(e).__name__, e)
    return o


def html_blocks(page):
    """The JSON blocks of the page, read the way a browser does."""
    from html.parser import HTMLParser

    class P(HTMLParser):
        def __init__(self):
            super().__init__(convert_charrefs=False)
            self.cur, self.blocks = None, {}

        def handle_starttag(self, tag, attrs):
            a = dict(attrs)
            if tag == "script":
                self.cur = a.get("id") if a.get("type") == "application/json" else None
                if self.cur:
                    if self.cur in self.blocks:
                        raise ValueError("two blocks " + self.cur)
                    self.blocks[self.cur] = ""

        def handle_endtag(self, tag):
            if tag == "script":
                self.cur = None

        def handle_data(self, data):
            if self.cur:
                self.blocks[self.cur] += data

    p = P()
    p.feed(page)
    p.close()
    if sorted(p.blocks) != ["importedAccounts", "importedCommodities", "importedPrices", "importedTransactions"]:
        raise ValueError("blocks: %s" % sorted(p.blocks))
    return {k: json.loads(v) for k, v in p.blocks.items()}


def c02(chk):
    chk.build("coin", "coin2html")
    scn = mc_ledger(chk, "balances", "PoolOrder", scale(chk, 2, 3), ["Ordered", "RunningSums", "EachPostingOnce", "BooksBalance", "WarningsExact"], workers=8)

    def enumerated(s):
        def fn(chk, case, d, rng):
            load_case(case, Enumerated(s), d, big=rng)
            add_load(chk, case, d)
            add_export(chk, case, d)
            ask_balance(chk, case, d, query(z=True))
            keep_files(case, d)
        return fn
    chk.run_cases([("enumerated-%d" % i, enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 150, 1500)))] +
                  [("ledger-%d" % i, c02_case) for i in range(scale(chk, 120, 900))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "ledgers enumerated by MC_Ledger (sampled) and random ledgers with several postings per account and date and true and false assertions; "
                      "non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C03 ----------------------------------------------------------------------------------------------
def c03_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 1, 2, 3]), accts=rng.choice([3, 6, 9]), txns=rng.choice([3, 8, 16]), span=rng.choice([3, 15, 60]),
            assertions=0.05, wrong=0, decs=(2, 2, 0, 3))
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    case.add("resolve")
    for i in range(6):
        q = g.rand_query(z=rng.random() < 0.4, l=rng.choice([0, 0, 0, 1, 2, 3]))
        if rng.random() < 0.6:
            q["acct"] = pick_account(rng, g)
        ask_balance(chk, case, d, q)
    keep_files(case, d)


def c03(chk):
    chk.build("coin")
    scn = mc_ledger(chk, "trees", "PoolReport", scale(chk, 1, 2), ["ReportsConserve"], queries="ReportQueries", workers=8)

    def pick(rng, g):
        q = mc_query(rng)
        q.update(acct=rng.choice(["A", "A:B", "C", "Root", ""]), z=rng.random() < 0.5, l=rng.choice([0, 0, 1, 2]))
        return q
    mk = enumerated_reports(ask_balance, pick)
    chk.run_cases([("enumerated-%d" % i, mk(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 60, 1500)))] +
                  [("ledger-%d" % i, c03_case) for i in range(scale(chk, 150, 1100))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "ledgers enumerated by MC_Ledger and random ledgers and balance commands; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- scenarios enumerated by TLC ----------------------------------------------------------------------
def mc_ledger(chk, name, pool, maxtx, invariants, queries="NoQueries", emit=True, workers=4, timeout=600, constraint=""):
    """Model checks MC_Ledger; returns the ledgers it visited, for replay."""
    cfg = "SPECIFICATION MCSpec\nCONSTANTS Pool <- %s\n MaxTx = %d\n Queries <- %s\n Emit = %s\nINVARIANTS %s Emitted\nCHECK_DEADLOCK FALSE\n%s" % (
        pool, maxtx, queries, "TRUE" if emit else "FALSE", " ".join(invariants), constraint)
    out = chk.model(name, "MC_Ledger", cfg, workers=workers, timeout=timeout, heap="4g")
    return emitted(out)


def emitted(out):
    scn = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"SCN '):
            scn.append(json.loads(json.loads('"' + line[len('"SCN '):-1] + '"')))
    return sorted(scn, key=lambda s: json.dumps(s, sort_keys=True))


class Enumerated:
    """The ledger of MC_Ledger's prelude with the transactions of an enumerated scenario."""

    def __init__(self, scn):
        txns = [dict(kind="txn", **{k: v for k, v in t.items() if k not in ("tags",)}) for t in scn["txns"]]
        for t in txns:
            t["posts"] = [{k: v for k, v in p.items() if k != "tags"} for p in t["posts"]]
        usd = any(p["acct"] == "U" for t in txns for p in t["posts"]) or any(p["com"] == "USD" for t in txns for p in t["posts"])
        self.dec = {"CAD": 2, "USD": 2}
        self.names = ["A", "A:B", "C"] + (["U"] if usd else [])
        self.txns = txns
        self.entries = [commodity("CAD")] + ([commodity("USD")] if usd else []) + [
            account("A"), account("A:B"), account("C")] + ([account("U", "USD")] if usd else []) + (
            [price(18262, "USD", "CAD", 200), price(18262, "CAD", "USD", 50)] if usd else []) + txns
        self.start = 18262
        self.descs = ["x", "Xy"]

    def files(self, st=None):
        return standard_files(self.entries)


def sample(chk, scn, n):
    r = chk.rng("sample")
    return scn if len(scn) <= n else r.sample(scn, n)


# -- C01 ----------------------------------------------------------------------------------------------
def c01_observe(chk, case, d, rng=None):
    """Loads with one of the commands; exports when accepted."""
    cmds = [["stats"], ["balance", "-z"], ["register", "Root"], ["tags"], ["register", "-r", "-m", "Root"]]
    args = cmds[0] if rng is None else rng.choice(cmds)
    rc, out, err = coin(chk, d, args)
    if args[0] in ("balance", "register"):
        # these may fail for want of conversions, which is another matter: stats decides
        rc2, out2, err = coin(chk, d, ["stats"])
        if rc2 == 0:
            rc, out = rc2, out2
        elif rc == 0:
            case.local.append(dict(what="commands disagree whether the ledger loads", args=args))
    case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err), args=" ".join(args))
    add_export(chk, case, d)
    case.replay["commands"] = [["coin"] + args, ["coin2html"]]


def c01_enumerated(scn):
    def fn(chk, case, d, rng):
        g = Enumerated(scn)
        load_case(case, g, d)
        c01_observe(chk, case, d)
        keep_files(case, d)
    return fn


def mutate_ledger(rng, g):
    """Breaks (or not) a valid ledger in one or two places."""
    # a commodity that is not declared: another case, the symbol or the start of one that is
    unknown = lambda c: rng.choice(["ZZZ", c.lower(), c.lower(), "S" + c, "S" + c, c[:-1], c + "1"]) if rng.random() < 0.8 else c.capitalize()
    what = rng.choice(["cent", "swap", "drop", "missing", "unknown-account", "unknown-com", "undeclare-com", "undeclare-acct",
                       "undeclare-default", "foreign", "sign", "price-com", "bal-com", "unprice", "extra", "compensate"])
    t = rng.choice(g.txns)
    p = rng.choice(t["posts"]) if t["posts"] else None
    if p is None:
        return "none"
    if what == "cent" and p["has"]:
        p["q"] += rng.choice([1, -1, 100])
    elif what == "swap" and p["has"]:
        o = rng.choice(t["posts"])
        p["q"], o["q"] = o["q"], p["q"]
    elif what == "drop":
        t["posts"].remove(p)
    elif what == "missing":
        for x in rng.sample(t["posts"], min(len(t["posts"]), rng.choice([1, 2, 2, 3]))):
            x.update(has=False, asserted=False)
        if rng.random() < 0.3 and not p["has"]:                # of one account
            t["posts"].insert(rng.randrange(len(t["posts"]) + 1), post(p["acct"]))
    elif what == "unknown-account":
        p["acct"] = rng.choice(["Nowhere", "Assets:Zzz", p["acct"] + ":Zzz", "Zz:" + p["acct"]])
    elif what == "unknown-com" and p["has"]:
        p["com"] = unknown(p["com"])
    elif what == "bal-com" and p["has"]:
        p.update(asserted=True, bal=100, balcom=rng.choice([unknown(p["com"]), p["com"]]))
    elif what == "undeclare-com" and len(g.coms) > 1:
        c = rng.choice(g.coms)
        g.entries[:] = [e for e in g.entries if not (e["kind"] == "commodity" and e["id"] == c and not e["default"])]
    elif what == "undeclare-default":
        g.entries[:] = [e for e in g.entries if not (e["kind"] == "commodity" and e["default"])]
    elif what == "undeclare-acct":
        a = rng.choice(g.names)
        g.entries[:] = [e for e in g.entries if not (e["kind"] == "account" and e["name"] == a)]
    elif what == "foreign" and p["has"] and len(g.coms) > 1:
        p["com"] = rng.choice(g.coms)
    elif what == "sign" and p["has"]:
        p["q"] = -p["q"]
    elif what == "price-com":
        z = unknown(rng.choice(g.coms))
        g.entries.append(price(g.start, rng.choice(g.coms), z, 100) if rng.random() < 0.5 else price(g.start, z, g.coms[0], 100))
    elif what == "unprice":
        g.entries[:] = [e for e in g.entries if e["kind"] != "price"]
    elif what == "extra" and p["has"]:
        t["posts"].append(post(p["acct"], rng.choice([0, p["q"], 1]), p["com"]))
    elif what == "compensate" and len(g.txns) > 1:
        # errors of two transactions that cancel out
        o = rng.choice([x for x in g.txns if x is not t])
        if o["posts"] and o["posts"][0]["has"] and p["has"]:
            p["q"] += 100
            o["posts"][0]["q"] -= 100
    return what


def c01_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 1, 2, 3]), accts=rng.choice([2, 4, 7]), txns=rng.choice([1, 3, 8]), span=30, notes=0.05,
            missing=0.4, decs=(2, 2, 0, 3))
    if rng.random() < 0.65:
        for _ in range(rng.choice([1, 1, 2])):
            chk.count("mutation " + mutate_ledger(rng, g))
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    c01_observe(chk, case, d, rng)
    keep_files(case, d)


def c01(chk):
    chk.build("coin", "coin2html")
    scn = mc_ledger(chk, "loading", "PoolLoad", 1, ["Balanced", "EachPostingOnce", "RunningSums", "BooksBalance"])
    acc = sum(1 for s in scn if s["accepted"])
    if not (100 < acc < len(scn) - 100):
        raise CheckError("enumeration is one-sided: %d of %d accepted" % (acc, len(scn)))
    pick = sample(chk, scn, scale(chk, 700, 5000))
    chk.run_cases([("enumerated-%d" % i, c01_enumerated(s)) for i, s in enumerate(pick)] +
                  [("ledger-%d" % i, c01_case) for i in range(scale(chk, 300, 2500))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "all one-transaction ledgers of the MC_Ledger pool (sampled in the quick tier) and random ledgers, "
                      "two thirds of them broken in one or two places; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C04 ----------------------------------------------------------------------------------------------
def c04_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 1, 2]), accts=rng.choice([2, 4, 7]), txns=rng.choice([3, 8, 20]), span=rng.choice([2, 10, 60]),
            wrong=0, decs=(2, 2, 0, 3), notes=0.4)
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    case.add("resolve")
    for i in range(6):
        q = g.rand_query(r=rng.random() < 0.4, f=rng.random() < 0.3, n=rng.random() < 0.3, l=rng.choice([12, 12, 3, 8, 20, 40]),
                         acct=pick_account(rng, g))
        if q["hasp"] and rng.random() < 0.4:
            q["pinv"] = True
        ask_register(chk, case, d, q)
    keep_files(case, d)


def enumerated_reports(ask_fn, picks):
    def make(scn):
        def fn(chk, case, d, rng):
            g = Enumerated(scn)
            load_case(case, g, d)
            case.add("resolve")
            for _ in range(3):
                ask_fn(chk, case, d, picks(rng, g))
            keep_files(case, d)
        return fn
    return make


def mc_query(rng):
    q = query()
    q["hasb"], q["b"] = rng.random() < 0.5, 18262
    q["hase"], q["e"] = rng.random() < 0.3, 18262
    q["hasp"], q["p"], q["pinv"] = rng.random() < 0.5, [alt("Y")], False
    q["hast"] = rng.random() < 0.5
    q["t"] = dict(inv=rng.random() < 0.5, key=[alt("k", True)], hasval=rng.random() < 0.5, val=[alt("V")])
    return q


def c04(chk):
    chk.build("coin")
    scn = mc_ledger(chk, "reports", "PoolReport", scale(chk, 1, 2), ["Ordered", "RegistersComplete"], queries="ReportQueries", workers=8)
    scn += mc_ledger(chk, "orders", "PoolOrder", scale(chk, 2, 3), ["Ordered", "RunningSums"])
    def pick(rng, g):
        q = mc_query(rng)
        q.update(acct=rng.choice(["A", "A:B", "C", "Root"]), r=rng.random() < 0.5, n=rng.random() < 0.5, l=12, pinv=q["hasp"] and rng.random() < 0.5)
        return q
    mk = enumerated_reports(ask_register, pick)
    chk.run_cases([("enumerated-%d" % i, mk(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 150, 3000)))] +
                  [("ledger-%d" % i, c04_case) for i in range(scale(chk, 150, 1200))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "ledgers enumerated by MC_Ledger and random ledgers, each with random register commands; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C05 ----------------------------------------------------------------------------------------------
def c05_query(rng, g, acct=None):
    q = g.rand_query() if isinstance(g, Gen) else mc_query(rng)
    q.update(acct=acct or pick_account(rng, g, root=0.4), r=rng.random() < 0.4, g=rng.choice([5, 5, 0, 1, 2, 3, 10]), l=rng.choice([12, 12, 5, 20]),
             o=rng.choice(["text", "text", "csv", "json"]))
    k = rng.random()
    if k < 0.5:
        q["period"] = rng.choice("wmqy")
    elif k < 0.7:
        q["cat"] = rng.choice(["payee", "tags"])
    else:
        q["period"], q["cat"] = rng.choice("wmqy"), rng.choice(["payee", "tags"])
    if q["cat"] == "" or rng.random() < 0.05:
        q["c"] = rng.random() < 0.4
    return q


def c05_case(chk, case, d, rng):
    g = Gen(rng, coms=rng.choice([1, 1, 2, 3]), accts=rng.choice([2, 4, 7, 9]), txns=rng.choice([3, 8, 20]), span=rng.choice([10, 60, 200, 800]),
            wrong=0, assertions=0.03, decs=(2,), notes=0.4, descs=["Grocer", "Rent", "ACME Inc.", "a b", "Pay"] + ([""] if rng.random() < 0.2 else []))
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    case.add("resolve")
    for i in range(5):
        q = c05_query(rng, g)
        if q["cat"] == "payee" and q["o"] == "text" and "" in g.descs:
            q["o"] = rng.choice(["csv", "json"])
        ask_aggregate(chk, case, d, q)
    keep_files(case, d)


def c05(chk):
    chk.build("coin")
    scn = mc_ledger(chk, "aggregates", "PoolReport", 1, ["AggregatesComplete"], queries="ReportQueries", workers=8)
    if chk.thorough:
        scn += mc_ledger(chk, "aggregates-2", "PoolReport", 2, ["AggregatesComplete"], queries="NoQueries", workers=8)
    mk = enumerated_reports(ask_aggregate, lambda rng, g: c05_query(rng, g, rng.choice(["A", "C", "Root"])))
    chk.run_cases([("enumerated-%d" % i, mk(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 40, 2000)))] +
                  [("ledger-%d" % i, c05_case) for i in range(scale(chk, 180, 1200))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "ledgers enumerated by MC_Ledger and random ledgers, each with random aggregating register commands; non-trivial when distinct", LEDGER_ASSUMPTIONS)


# -- C06 ----------------------------------------------------------------------------------------------
def rand_expr(rng, names):
    n = rng.choice(names)
    parts = n.split(":")
    k = rng.random()
    if k < 0.15:
        return n
    if k < 0.25:
        return n.lower()
    ws = []
    for p in parts:
        i = 0 if rng.random() < 0.6 else rng.randrange(len(p))
        ws.append(p[i:rng.randrange(i, len(p)) + 1])
    lo = rng.randrange(len(ws)) if rng.random() < 0.4 else 0
    hi = rng.randrange(lo, len(ws)) + 1 if rng.random() < 0.3 else len(ws)
    out = ws[lo]
    for w in ws[lo + 1:hi]:
        r = rng.random()
        if r < 0.2:
            out += "::"                                 # skip what comes in between
            if rng.random() < 0.5:
                continue
        else:
            out += ":"
        out += w
    if rng.random() < 0.15:
        out += rng.choice([":", "::"])
    if rng.random() < 0.1:
        out = "^" + out
    if rng.random() < 0.1 and not out.endswith(":"):
        out += "$"
    if rng.random() < 0.4:
        out = out.lower() if rng.random() < 0.7 else out.upper()
    return out


def c06_names(rng):
    parts = ["A", "AB", "B", "Ab", "Cash", "Cas", "C", "Foo", "Food", "a", "x_y", "x-y", "x/y", "Root", "R2", "x/y/z", "b-/_c", "Unb"]
    names = set()
    k = rng.choice([1, 2, 4, 7, 10])
    while len(names) < k:
        base = rng.choice(sorted(names)) + ":" if names and rng.random() < 0.5 else ""
        n = base + ":".join(rng.choice(parts) for _ in range(rng.choice([1, 1, 2])))
        if n.count(":") < 4 and not n.startswith("Root"):
            names.add(n)
    if rng.random() < 0.2:
        names.add(rng.choice(["Root", "Unbalanced", "Unbalanced", "Unbalanced:x"]))
    names = sorted(names)
    rng.shuffle(names)
    return names


def c06_case(chk, case, d, rng):
    names = c06_names(rng)
    dup = [rng.choice(names)] if rng.random() < 0.1 else []
    entries = [commodity("CAD", default=True)] + [account(n) for n in names + dup]
    g = Fixed(entries, {"CAD": 2})
    load_case(case, g, d, style(rng), big=rng if len(g.dec) == 1 else None)
    every = closure(names)
    for _ in range(8):
        e = rand_expr(rng, every if rng.random() < 0.9 else every + ["Nope:Nil"])
        if e.startswith("-"):
            continue
        how = rng.random()
        if how < 0.6:
            rc, out, err = coin(chk, d, ["register", e])
            cmd_note(case, ["register", e])
            got = out.splitlines()[0].rsplit(" ", 1)[0] if rc == 0 and out else ""
            if rc == 0 and not got:
                got = "?"
            if rc != 0 and out:
                got = "? " + out
        elif how < 0.75:
            rc, out, err = coin(chk, d, ["balance", "-z", e])
            cmd_note(case, ["balance", "-z", e])
            b = read_balance(rc, out)
            got = (b["rows"][0][3] if b["rows"] else "?") if rc == 0 else ("" if not out else "? " + out)
        else:
            if not re.match(r"^([A-Za-z][\w/-]*)(:[A-Za-z][\w/-]*)*$", e):
                continue
            t = ["2020/01/01 x", "  %s  1 CAD" % e, "  Unbalanced", ""]
            with open(os.path.join(d, "transactions.coin"), "w") as f:
                f.write("\n".join(t))
            rc, out, err = coin(chk, d, [], exe="coin2html")
            o = read_export(rc, out)
            got = o["transactions"][0]["postings"][0]["account"] if rc == 0 and o["valid"] and o["transactions"] else ("" if rc != 0 and not out else "?")
            with open(os.path.join(d, "transactions.coin"), "w") as f:
                f.write("")
        case.add("denotes", expr=e, obs=got)
    keep_files(case, d)


class Fixed:
    def __init__(self, entries, dec, files=None):
        self.entries, self.dec, self._files = entries, dec, files

    def files(self, st=None):
        return self._files or standard_files(self.entries)


def c06_enumerated(scn):
    def fn(chk, case, d, rng):
        entries = [commodity("CAD", default=True)] + [account(n) for n in scn["names"]]
        g = Fixed(entries, {"CAD": 2})
        load_case(case, g, d)
        for e in scn["exprs"]:
            rc, out, err = coin(chk, d, ["register", e])
            got = out.splitlines()[0].rsplit(" ", 1)[0] if rc == 0 and out else ("" if not out else "?")
            case.add("denotes", expr=e, obs=got)
        keep_files(case, d)
    return fn


def c06(chk):
    chk.build("coin", "coin2html")
    cfg = "SPECIFICATION MCSpec\nCONSTANTS MaxNames = %d\nINVARIANTS FullNames Sound OrderFree Emitted\nCHECK_DEADLOCK FALSE\n" % scale(chk, 3, 4)
    scn = emitted(chk.model("names", "MC_Names", cfg, workers=8))
    chk.run_cases([("enumerated-%d" % i, c06_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 60, 1500)))] +
                  [("names-%d" % i, c06_case) for i in range(scale(chk, 250, 2500))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "account sets with names that are parts of one another and expressions derived from them, in commands and in transactions; non-trivial when distinct", LEDGER_ASSUMPTIONS)
