"""C18: the same ledger and command always give the same output."""
import gzip, hashlib, os, random, shutil
from core import Case, run
from ledger import *
from p_gnucash import book_xml, rand_book
from p_import import Table, begin_db, import_case, ledger_for, ofx_text, rand_stmts, rand_style, source_text, csv_text, write_ledger
from p_ledger import scale, style


def repeat(chk, case, reqs, times):
    """Runs every request a number of times; the answer is the exit status and the standard output."""
    seen = {}
    hours = [None, (0, 0, 3), (23, 59, 57), (12, 0, 0)] + [(k * 7 % 24, k * 13 % 60, k) for k in range(3, times)]
    for k in range(times):
        for exe, args, cwd, env in reqs:
            if hours[k]:                                       # another time of the same day
                zone = zoneinfo.ZoneInfo(env["TZ"])
                day = datetime.datetime.fromtimestamp(int(env["PRETEND_NOW"]), zone).date()
                at = datetime.datetime.combine(day, datetime.time(*hours[k]), zone)
                env = dict(env, PRETEND_NOW=str(int(at.timestamp())))
            if args and args[-1].endswith("copy.coin"):        # a file to be rewritten: the answer is what becomes of it
                shutil.copyfile(args[-1][:-9] + "transactions.coin", args[-1])
            rc, out, err = run([chk.exe(exe)] + args, cwd=cwd, env=env)
            if args and args[-1].endswith("copy.coin"):
                out += open(args[-1]).read()
                os.remove(args[-1])
            h = "%s:%s" % (rc, hashlib.sha256(out.encode("utf-8", "surrogateescape")).hexdigest()[:20])
            name = "%s %s" % (exe, " ".join(args))
            if len(seen.setdefault(name, {})) < 3:
                seen[name].setdefault(h, out[:4000])
            case.add("run", request=name, answer=h)
            chk.count("runs")
    case.replay["answers"] = {n: a for n, a in seen.items() if len(a) > 1}


def keep(case, d):
    c = Case("files")
    keep_files(c, d)
    case.replay.update(files=c.replay["files"])


def tied_ledger(rng):
    """A ledger with many ties: accounts with the same totals, prices of one date, names and tags that recur."""
    coms = rng.sample(["CAD", "USD", "EUR", "JPY", "ABC", "X1"], rng.choice([1, 2, 3, 5]))
    dec = {c: rng.choice([2, 2, 0, 3]) for c in coms}
    entries = [commodity(c, dec[c], default=(i == 0 or rng.random() < 0.2), name=rng.choice(["", "Money"]), sym=rng.choice(["", "SYM", c])) for i, c in enumerate(coms)]
    for a in coms:
        for b in coms:
            if a != b and (rng.random() < 0.8 or b == coms[0]):
                days = rng.sample(range(5), rng.choice([1, 1, 2]))
                entries += [price(DAY_2020 + x, a, b, rng.randrange(1, 900)) for x in days]
    if rng.random() < 0.5 and len(coms) > 2:
        # no price leads to the default directly: only chains of the same length do
        entries = [e for e in entries if not (e["kind"] == "price" and e["cur"] == coms[0] and e["com"] in coms[2:])]
    tops = rng.sample(["Assets", "Asset", "Income", "Expenses", "A", "B", "Car", "Care"], rng.choice([2, 4]))
    names = []
    for t in tops:
        for k in rng.sample(["Bank", "Cash", "Food", "Foo", "Rent", "Tax", "A", "B", "C", "D"], rng.choice([1, 3, 6, 10])):
            names.append(t + ":" + k)
            if rng.random() < 0.3:
                names.append(t + ":" + k + ":" + rng.choice(["Sub", "Bank", "A"]))
    names = sorted(set(names))
    com = {n: coms[0] if rng.random() < 0.5 else rng.choice(coms) for n in names}
    accts = [account(n, com[n] if com[n] != coms[0] or rng.random() < 0.5 else "", closed="2020/03/01" if rng.random() < 0.1 else "") for n in names]
    if any(e.get("default") for e in entries[1:len(coms)]):
        accts = [account(n, com[n]) for n in names]
    rng.shuffle(accts)
    txns = []
    qs = [100, 500, 100, 250]
    for _ in range(rng.choice([5, 20, 40])):
        day = DAY_2020 + rng.choice([0, 0, 1, 31, 40, 366])
        c = rng.choice(coms)
        pool = [n for n in names if com[n] == c]
        if len(pool) < 2:
            continue
        q = rng.choice(qs)
        n = rng.choice([2, 2, 3])
        ps = [post(rng.choice(pool), q, c, notes=[tag_text(rng)] if rng.random() < 0.3 else []) for _ in range(n - 1)]
        ps.append(post(rng.choice(pool), -q * (n - 1), c))
        txns.append(txn(day, rng.choice(["Pay", "Bus", "Rent", "x"]), ps, code=rng.choice(["", "", "7"]), notes=[" ".join(tag_text(rng) + "," for _ in range(rng.choice([1, 2])))] if rng.random() < 0.4 else []))
    for t in list(txns):
        if rng.random() < 0.15:
            txns.append(t)
    return entries + accts + txns, dec, coms, names


def ledger_requests(rng, d, names, coms, thorough):
    reqs = []

    def add(*args, exe="coin"):
        reqs.append((exe, [str(a) for a in args], d, db_env(d)))
    acct = lambda: rng.choice(["Root", "Root", rng.choice(names), rng.choice(names).split(":")[0]])
    add("balance", "-z")
    add("balance", acct(), *rng.choice([[], ["-l", "1"], ["-t", "!food"], ["-b", "2020/01/02"]]))
    add("register", "-r", *rng.choice([[], ["-n"], ["-f"]]), acct())
    for _ in range(6 if thorough else 4):
        a = ["register"] + rng.choice([["-r"], []]) + rng.choice([["-w"], ["-m"], ["-q"], ["-y"], [], ["-m"]]) + rng.choice([["-bp"], ["-bt"], []])
        if len(a) == 1 or a == ["register", "-r"]:
            a.append("-m")
        a += rng.choice([[], ["-g", "1"], ["-g", "2"], ["-g", "3"], ["-g", "9"]]) + rng.choice([[], ["-o", "csv"], ["-o", "json"]])
        if "-bp" not in a and "-bt" not in a and rng.random() < 0.3:
            a.append("-c")
        add(*a, acct())
    add("tags", *rng.choice([[], ["-v"], ["-a"], ["-v", "-a"]]))
    add("stats", *rng.choice([[], ["-u"], ["-d"], ["-c"], ["-u", "-d", "-c"]]))
    add("accounts", *rng.choice([[], ["-c"], ["A"]]))
    add("commodities", *rng.choice([[], ["-p"], [rng.choice(coms)]]))
    add(exe="coin2html")
    add("register", rng.choice(["A", "Bank", "a:b", "o", "c", "B:", rng.choice(names)[:3]]))
    f = os.path.join(d, "transactions.coin")
    if os.path.exists(f):
        add("format", *rng.choice([[], ["-t"], ["-ledger"]]), f)
        add("modify", *rng.choice([["-p", "Pay", "-tt:", "#new"], ["-a", rng.choice(names), "-pt:", "#a #b #c: x, #d"], ["-p", ".", "-tt:", "#a, #b, #c"]]), os.path.join(d, "copy.coin"))
        add("format", "-i", os.path.join(d, "copy.coin"))
    add("test", os.path.join(d, "check.test"))
    return reqs


def c18_ledger(chk, case, d, rng):
    entries, dec, coms, names = tied_ledger(rng)
    write_files(d, standard_files(entries), dec, style(rng))
    open(os.path.join(d, "check.test"), "w").write("include commodities.coin\ninclude accounts.coin\n%sinclude transactions.coin\n\n" % "".join("include %s\n" % n for n in sorted(os.listdir(d)) if "price" in n) +
                                                   "".join("test %s\nwrong\nend test\n\n" % t for t in ("balance -z", "register -r -m Root", "tags -v", "register -bp Root")))
    keep(case, d)
    repeat(chk, case, ledger_requests(rng, d, names, coms, chk.thorough), 10 if chk.thorough else 6)


def c18_import(chk, case, d, rng):
    db, ids, rules = import_case(rng)
    known = [i for i in ids if any(x["k"] == "acct" and x["name"] == i for x in rules) or any(a["ofx"] == i for a in db.accts)] or ids
    files = [rand_stmts(rng, known) for _ in range(rng.choice([1, 2, 3]))]
    begin_db(Case("x"), d, db, rules, rng)
    dbd = os.path.join(d, "db")
    ledger = ledger_for(rng, db, [s for f in files for s in f], rules, known)
    if ledger:
        write_ledger(os.path.join(dbd, "transactions.coin"), ledger)
    paths = []
    bmo = False
    for i, s in enumerate(files):
        p = os.path.join(d, "a%d.ofx" % i)
        open(p, "w").write(ofx_text(s, rand_style(rng, bmo)))
        paths.append(p)
    t = Table(rng, db, known)
    open(os.path.join(dbd, "csv.rules"), "w").write(source_text("other", 1, Table(rng, db, known).defs, rng) + source_text("src", 0, t.defs, rng) + "---\n" + open(os.path.join(dbd, "ofx.rules")).read()
                                                  if os.path.exists(os.path.join(dbd, "ofx.rules")) else source_text("src", 0, t.defs, rng) + "---\n")
    c = os.path.join(d, "a.csv")
    open(c, "w", newline="").write(csv_text([t.row() for _ in range(rng.choice([1, 5, 12]))], rng))
    keep(case, d)
    env = db_env(dbd)
    reqs = [("ofx2coin", paths, d, env), ("ofx2coin", ["-keep-dupes"] + paths, d, env), ("ofx2coin", ["-rules"], d, env),
            ("csv2coin", ["-source", "src", c], d, env), ("csv2coin", ["-rules"], d, env)]
    repeat(chk, case, reqs, 12 if chk.thorough else 8)


def c18_book(chk, case, d, rng):
    b = os.path.join(d, "book.gnucash")
    with gzip.open(b, "wt", compresslevel=1) as f:
        f.write(book_xml(rand_book(rng, 20), rng))
    env = {k: v for k, v in os.environ.items() if k != "COINDB"}
    env.update(clock_in(d))
    repeat(chk, case, [("gc2coin", ["-gnucashdb", b], d, env), ("gc2coin", ["-l", "-gnucashdb", b], d, env)], 10)
    case.replay["files"] = {"book.gnucash (uncompressed)": gzip.open(b, "rt").read()}


MC = 'SPECIFICATION MCSpec\nCONSTANTS Requests = {%s}\n Answers = {%s}\nPROPERTY MCSettled\nCHECK_DEADLOCK FALSE\n'
MC_ITER = "SPECIFICATION Spec\nCONSTANTS Items = {%s}\n Key <- %s\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n"


def c18(chk):
    chk.build("coin", "coin2html", "ofx2coin", "csv2coin", "gc2coin")
    chk.model("determinism", "MC_Determinism", MC % ('"a", "b", "c"', '"x", "y", "z"'))
    items = ", ".join(str(i) for i in range(1, 7 if chk.thorough else 6))
    chk.model("ordered", "MC_Iteration", MC_ITER % (items, "Distinct", "OneAnswer"), workers=4)
    chk.model("tied", "MC_Iteration", MC_ITER % (items, "Tied", "OneAnswer"), violates=True, workers=4)
    chk.run_cases([("ledger-%d" % i, c18_ledger) for i in range(scale(chk, 110, 900))] + [("import-%d" % i, c18_import) for i in range(scale(chk, 70, 700))] +
                  [("book-%d" % i, c18_book) for i in range(scale(chk, 40, 300))])
    chk.validate("Trace_Determinism")
    return chk.finish("model_checking", "commands over ledgers, imports and books full of ties, each run 6 to 12 times; non-trivial when distinct",
                      ["Go starts every iteration over a map at a random place, so repeated runs sample the orders: a dependence on the order of two or more entries shows in most "
                       "series of runs, over many scenarios"])
