"""C21: generated sample ledgers."""
import datetime, json, os
from core import CheckError, REPO, VERIF, go_env, run
from ledger import *
from p_gnucash import Reader, T_LINE
from p_ledger import sample, scale

D = datetime.date


def ymd(d):
    return [d.year, d.month, d.day]


def hundredths(s):
    """The number before the commodity, in hundredths; none if it has not two decimals."""
    m = re.fullmatch(r"(-?)(\d+)\.(\d\d)", s)
    return int(m[1] + m[2] + m[3]) if m and abs(int(m[2])) < 10 ** 7 else -999999999


def quantity(s):
    n, _, c = s.partition(" ")
    return hundredths(n), c


def txn_event(t, file):
    return dict(day=ints(t["date"]), desc=t["desc"], file=file, posts=t["posts"])


def ints(date):
    return [int(x) for x in date.split("/")] if re.fullmatch(r"\d{4}/\d\d/\d\d", date) else [1, 1, 1]


def text_txns(text, rd):
    out = []
    for t in rd.transactions(rd.blocks(text)):
        if t["code"] or t["notes"] or any(p["notes"] for p in t["posts"]):
            rd.bad.append(str(t))
        out.append(dict(date=t["date"], desc=t["desc"], posts=[dict(acct=p["acct"], amt=hundredths(p["amount"]), com=p["com"], bal=0) for p in t["posts"]]))
    return out


def json_txns(text, rd):
    out = []
    for t in json.loads(text) or []:
        ps = []
        for p in t["postings"]:
            (a, c), (b, bc) = quantity(p["quantity"]), quantity(p["balance"]) if "balance" in p else (0, "CAD")
            ps.append(dict(acct=p["account"], amt=a, com=c, bal=b if bc == c else -999999999))
        out.append(dict(date=t["posted"], desc=t.get("description", ""), posts=ps))
    return out


def generate_run(chk, case, d, rng, b, e, mode, how, given=True):
    """mode: text, json (with balances), dir; how: all, month, year."""
    args = []
    today = date_in(d)
    if given or b is not None:
        args += ["-b", b.strftime("%Y/%m/%d")]
    if given or e is not None:
        args += ["-e", e.strftime("%Y/%m/%d")]
    end = e or today
    if b is None:
        y, m = divmod(end.year * 12 + end.month - 1 - 3, 12)
        b = D(y, m + 1, 1) + datetime.timedelta(end.day - 1)
    flags = {"all": [], "year": ["-y"], "month": rng.choice([["-m"], ["-m", "-y"]])}[how]
    out_dir = os.path.join(d, "out")
    if mode == "json":
        args += ["-j"] + (["-wb"] if rng.random() < 0.8 else [])
    if mode == "dir":
        os.mkdir(out_dir)
        flags = flags + (["-wb"] if rng.random() < 0.3 else [])
    args += flags + ([out_dir] if mode == "dir" else [])
    rc, out, err = run([chk.exe("gen2coin")] + args, cwd=d, env=dict(PATH=os.environ.get("PATH", ""), HOME="/nonexistent", **clock_in(d)))
    rd = Reader()
    txns, accounts = [], []
    if rc == 0:
        try:
            if mode == "text":
                txns = [(t, "transactions.coin") for t in text_txns(out, rd)]
            elif mode == "json":
                txns = [(t, "transactions.coin") for t in json_txns(out, rd)]
            else:
                if out:
                    rd.bad.append(out)
                accounts = [a["name"] for a in rd.accounts(rd.blocks(open(os.path.join(out_dir, "accounts.coin")).read()))]
                for n in sorted(os.listdir(out_dir)):
                    if n not in ("accounts.coin", "commodities.coin"):
                        txns += [(t, n) for t in text_txns(open(os.path.join(out_dir, n)).read(), rd)]
        except (ValueError, KeyError, OSError) as x:
            rd.bad.append(repr(x))
    for x in rd.bad[:3]:
        case.local.append(dict(what="unreadable output", expected="", observed=str(x)[:300], event=len(case.events)))
    case.add("run", ok=rc == 0, b=ymd(b), e=ymd(end), how=how if mode == "dir" else "all", balances=mode == "json" and "-wb" in args,
             declared=rc == 0 and mode == "dir", accounts=sorted(accounts), args=" ".join(args), stderr=err[-300:] if rc else "")
    case.replay.setdefault("commands", []).append("gen2coin " + " ".join(args))
    for t, f in txns:
        case.add("txn", **txn_event(t, f))
    case.add("done")
    if mode == "dir" and rc == 0:
        keep_files(case, out_dir)
        rc, out, err = coin(chk, out_dir, ["stats"])
        n = [x for x in read_stats(rc, out)["counts"]]
        rows = []
        if rc == 0:
            rc2, out2, err2 = coin(chk, out_dir, ["balance", "-z"])
            for r in read_balance(rc2, out2)["rows"]:
                if r[-1] in PERSONAL and len(r) == 4:
                    rows.append([r[-1], hundredths(r[1 if r[2] == "CAD" else 2])])
        case.add("loaded", ok=rc == 0, count=int(n[-1]) if n else -1, rows=rows, stderr=err[-300:] if rc else "", out=[] if rows else [out])


PERSONAL = ["Assets:Bank:Checking", "Assets:Bank:Savings", "Liabilities:MasterCard", "Liabilities:Amex", "Income:Salary", "Income:Interest",
            "Expenses:Groceries", "Expenses:Heat", "Expenses:Electricity", "Expenses:Water"]


def rand_range(rng, long_):
    b = rng.choice([D(2020, 1, 1), D(2020, 2, 29), D(2019, 12, 31), D(2021, 2, 28), D(2000, 1, 31), D(2020, rng.randrange(1, 13), rng.choice([1, 2, 15, 28])),
                    D(rng.randrange(1970, 2038), rng.randrange(1, 13), rng.randrange(1, 29)), D(2020, 1, 1) + datetime.timedelta(rng.randrange(366))])
    n = rng.choice([0, 0, 1, 6, 7, 13, 27, 28, 29, 30, 31, 32, 59, 89, 92, 365, rng.randrange(400), rng.randrange(60), long_, -1, -40])
    return b, b + datetime.timedelta(n)


def c21_run(chk, case, d, rng):
    b, e = rand_range(rng, 1500 if chk.thorough else 800)
    mode = rng.choice(["text", "json", "dir", "dir", "dir"])
    generate_run(chk, case, d, rng, b, e, mode, rng.choice(["all", "year", "month"]))


def c21_default(chk, case, d, rng):
    """Without -b or without -e, the range reaches back from the end and up to today."""
    b, e = None, None
    k = rng.randrange(3)
    if k == 1:
        b = date_in(d) - datetime.timedelta(rng.choice([0, 1, 10, 31, 100]))
    elif k == 2:
        e = rng.choice([D(2020, 5, 31), D(2021, 3, 1), D(2020, 12, 31), D(2024, 5, 29), D(2019, 1, 15)])
    generate_run(chk, case, d, rng, b, e, rng.choice(["text", "json", "dir"]), rng.choice(["all", "month"]), given=False)


def c21_today(chk, case, d, rng):
    """Up to today, all of it, whatever the time of the day."""
    b = date_in(d) - datetime.timedelta(rng.choice([0, 0, 1, 6, 13, 31]))
    generate_run(chk, case, d, rng, b, None, "text", "all", given=False)


def rand_rule(rng):
    if rng.random() < 0.5:
        pool, k = list(range(7)), "week"
        days = rng.choice([[], [], [4], [2, 5], [1, 2, 3, 4, 5], [0, 6], [6, 0], rng.sample(pool, rng.randrange(1, 8))])
    else:
        k = "month"
        pool = list(range(1, 32)) + list(range(-31, 0))
        days = rng.choice([[], [], [1], [31], [-1], [10, 20, 30], [-15, -30], [30, -1], [0, 15], [29, 30, 31], [-31, 15], rng.sample(pool, rng.randrange(1, 6))])
        # The same day counted from both ends is the same day: at most one of them may be meant.
        days = [x for i, x in enumerate(days) if not any(y != 0 and x * y < 0 and 28 <= abs(x) + abs(y) - 1 <= 31 for y in days[:i])]
    n = len(days) or (7 if k == "week" else 31)
    return dict(k=k, count=rng.choice([1, 1, 2, n, max(1, n - 1), n + 3, 3, 0]), interval=rng.choice([1, 1, 1, 2, 3, 5, 12, 0, -1]), days=days)


def c21_dates(chk, case, d, rng):
    reqs = []
    for _ in range(25):
        b, e = rand_range(rng, 900)
        reqs.append(dict(rule=rand_rule(rng), b=ymd(b), e=ymd(e), clock=rng.choice([0, 0, 1, 43200, 86399]), twice=rng.random() < 0.3))
    i, o = os.path.join(d, "in"), os.path.join(d, "out")
    open(i, "w").write("".join(json.dumps(q) + "\n" for q in reqs))
    rc, out, err = run([chk.exe("gendates.test"), "-test.run", "^Test_VerifDates$"], cwd=d, env=dict(os.environ, TZ=zone_of(d), VERIF_IN=i, VERIF_OUT=o))
    got = [json.loads(x) for x in open(o)] if os.path.exists(o) else []
    if rc != 0 or len(got) != len(reqs):
        case.replay["requests"] = reqs
        case.local.append(dict(what="computing the days of rules fails", observed="%s %s%s" % (rc, out[-500:], err[-500:])))
        return
    for q, r in zip(reqs, got):
        case.add("dates", rule=q["rule"], b=q["b"], e=q["e"], ok=r["ok"], dates=r["dates"] or [])


def gendates_driver(chk):
    """Functions and types that the tests of the repository use; without them only the program is checked."""
    js = os.path.join(chk.scratch, "gendates-overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "cmd/gen2coin/zz_verif_test.go"): os.path.join(VERIF, "drivers/gendates/zz_verif_test.go")}}, open(js, "w"))
    rc, out, err = run(["go", "test", "-c", "-vet=off", "-overlay", js, "-o", os.path.join(chk.bin, "gendates.test"), "./cmd/gen2coin"], cwd=REPO, env=go_env(), timeout=600)
    if rc != 0:
        chk.notes.append("the driver of the days does not build against this tree: " + (out + err)[-300:])
    return rc == 0


MC_REC = "SPECIFICATION MCSpec\nCONSTANT MaxSpan = %d\nINVARIANTS Sound InRange Ascending Complete Full\nCHECK_DEADLOCK FALSE\n"
MC_GEN = "SPECIFICATION MCSpec\nCONSTANT Days = %d\nINVARIANTS Zero Repaid Ordered Ranged Filed\nCHECK_DEADLOCK FALSE\n"


def c21(chk):
    chk.build("gen2coin", "coin")
    driver = gendates_driver(chk)
    chk.model("recurrence", "MC_Recurrence", MC_REC % scale(chk, 9, 16), workers=8)
    chk.model("generate", "MC_Generate", MC_GEN % scale(chk, 12, 16), workers=8)
    chk.run_cases([("run-%d" % i, c21_run) for i in range(scale(chk, 90, 700))] + [("default-%d" % i, c21_default) for i in range(scale(chk, 12, 60))] + [("today-%d" % i, c21_today) for i in range(scale(chk, 40, 200))] +
                  ([("days-%d" % i, c21_dates) for i in range(scale(chk, 60, 800))] if driver else []))
    chk.validate("Trace_Generate")
    return chk.finish("model_checking", "ranges of up to some years in every form of output, and random rules over random ranges; non-trivial when distinct",
                      ["the random choices of the generator are not controlled: any of them has to be allowed by the specification",
                       "the rules of the personal ledger are those in the specification; two days of a rule that are the same day counted from both ends are not used"])
