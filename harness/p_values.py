"""C11 (amounts), C12 (dates) and C20 (postings of accounts): the values of package coin driven directly by
drivers/values, and through the programs."""
import datetime, json, os, re
from core import VERIF, CheckError, run
from ledger import *
from p_ledger import LEDGER_ASSUMPTIONS, emitted, html_blocks, sample, scale, style

VALUE_ASSUMPTIONS = [
    "The driver shows what the exported functions return; that it does so faithfully is not checked.",
    "TLC and the Go toolchain are trusted.",
]


def drive(chk, ops, timeout=120):
    """Runs operations through the driver; returns one result per operation."""
    rc, out, err = run([chk.exe("values")], cwd=chk.bin, env=db_env(chk.bin), stdin="\n".join(json.dumps(o) for o in ops).encode() + b"\n", timeout=timeout)
    chk.count("driver operations", len(ops))
    res = [json.loads(x) for x in out.splitlines()]
    return res, rc, err


def short(case, res, ops, rc, err):
    """A driver that ends early: the operation after the last result did not return."""
    if len(res) < len(ops):
        case.local.append(dict(what="operation ends the program", expected="a result", observed=[ops[len(res)], rc, err[-400:]], event=len(case.events)))
        return True
    return False


# -- C11 ----------------------------------------------------------------------------------------------
LIMITS = [2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64, 2 ** 31, 10 ** 18, 10 ** 19, 2 ** 53 + 1, 10 ** 17 - 1]


def numeral(rng, proper=True, fits=0.9):
    r = rng.random()
    if r < 0.15:
        digits = str(rng.choice(LIMITS) + rng.choice([0, 0, 1, -1]))
    else:
        n = rng.choice([1, 1, 2, 3, 4, 6, 9, 10, 12, 15, 17, 18, 18, 19])
        if rng.random() > fits:
            n = rng.choice([19, 20, 25, 40])
        digits = "".join(rng.choice("0000123456789999") if rng.random() < 0.3 else rng.choice("0123456789") for _ in range(n))
    if rng.random() < 0.15:
        digits = "0" * rng.choice([1, 2, 5]) + digits
    if rng.random() < 0.1:
        digits += "0" * rng.choice([1, 2, 3])
    s = digits
    if rng.random() < 0.7:
        k = rng.choice([0, 1, 2, 2, 2, 3, 4, 8, 12])
        if k >= len(digits):
            digits = "0" * (k + 1 - len(digits)) + digits
        if k:
            s = digits[:-k] + "." + digits[-k:]
    if rng.random() < 0.4:
        s = "-" + s
    if not proper and rng.random() < 0.35:
        i = rng.randrange(len(s) + 1)
        s = rng.choice([s + ".", "." + s, "-" + s, "+" + s, s.replace(".", ","), s[:i] + rng.choice("_ ,.-+ex٣'") + s[i:], "", "-", ".", "-.", "0x1f", "1e3", " " + s, s + " ",
                        "NaN", "Inf", s.lstrip("-").split(".")[0] + ".", "-.5", ".5", "1..2", "1.-5", "1.+5", "--1"])
    return s


def c11_driver(chk, case, d, rng):
    ops, evs, live = [], [], {}
    # more often one and the same commodity, so that most amounts can be combined
    decs = rng.choice([[2], [0], [rng.randrange(13)], [2, 2, 0, 6], [rng.randrange(13) for _ in range(3)]])
    for _ in range(rng.choice([6, 15, 30])):
        r = rng.choice("pqrstu")
        k = rng.random()
        same = [x for x in live if live[x] == live.get(r)]
        if k < 0.3 or not live:
            dec = rng.choice(decs)
            t = numeral(rng, proper=rng.random() < 0.8)
            ops.append(dict(op="a-read", r=r, dec=dec, text=t))
            evs.append(("read", dict(r=r, dec=dec, text=t)))
            # whether r holds it is known afterwards
            live.setdefault(r, None)
            if live[r] is None:
                del live[r]
            s = t.lstrip("-")
            if re.fullmatch(r"-?\d+(\.\d+)?", t) and int(s.replace(".", "")) < 2 ** 63:
                live[r] = dec
            else:
                ops[-1]["r"] = evs[-1][1]["r"] = "junk"
        elif k < 0.4:
            dec = rng.choice(decs)
            num, den = numeral(rng).replace(".", ""), numeral(rng).replace(".", "").lstrip("-")
            if rng.random() < 0.5:
                den = str(10 ** rng.randrange(8))
            if int(den) == 0:
                den = "3"
            ops.append(dict(op="a-frac", r=r, dec=dec, num=num, den=den))
            evs.append(("frac", dict(r=r, dec=dec, neg=num.startswith("-"), num=num.lstrip("-"), den=den)))
            live[r] = dec
        elif k < 0.45:
            dec = rng.choice(decs)
            ops.append(dict(op="a-zero", r=r, dec=dec))
            evs.append(("zero", dict(r=r, dec=dec)))
            live[r] = dec
        elif k < 0.55:
            s = rng.choice(sorted(live))
            op = rng.choice(["copy", "neg"])
            ops.append(dict(op="a-" + op, r=r, s=s))
            evs.append((op, dict(r=r, s=s)))
            live[r] = live[s]
        elif k < 0.6:
            s, t = rng.choice(sorted(live)), rng.choice(sorted(live))
            # keep numbers from growing without end
            ops.append(dict(op="a-times", r="product", s=t, text=s))
            evs.append(("times", dict(r="product", s=s, t=t)))
        elif k < 0.85 and same:
            s = rng.choice(same)
            ops.append(dict(op="a-add", r=r, s=s))
            evs.append(("add", dict(r=r, s=s)))
        elif same:
            s = rng.choice(same)
            op = rng.choice(["cmp", "is", "mag", "magis", "iszero"])
            ops.append(dict(op="a-" + op, r=r, s=s))
            evs.append(({"is": "cmp", "magis": "mag"}.get(op, op), dict(r=r, s=s)))
    res, rc, err = drive(chk, ops)
    case.replay["operations"] = ops
    for (e, kw), o, r in zip(evs, ops, res):
        if o["op"] == "a-read":
            kw["ok"] = r["ok"]
        elif not r["ok"]:
            case.local.append(dict(what="operation on amounts fails", expected="a result", observed=[o, r.get("panic")], event=len(case.events)))
            return
        if o["op"] == "a-frac":
            kw["got"] = r["text"]
        if e in ("cmp", "mag", "iszero"):
            kw["got"] = r["got"]
        case.add(e, shown=r["shown"], **kw)
    short(case, res, ops, rc, err)


def units(text, dec):
    """Used to make up transactions that are meant to balance; the specification decides whether they do."""
    neg = text.startswith("-")
    w, _, f = text.lstrip("-").partition(".")
    n = int(w + (f + "0" * dec)[:dec])
    return -n if neg else n


def c11_ledger(chk, case, d, rng):
    dec = rng.choice([0, 1, 2, 2, 3, 6, 8, 12])
    accts = ["A:X", "A:Y", "B"]
    size = rng.choice([3, 8, 15, 18]) - (dec if dec < 8 else 4)

    def num():
        if rng.random() < 0.03:
            s = numeral(rng)
        else:
            s = str(rng.randrange(10 ** max(1, rng.randrange(1, max(2, size) + 1))))
            k = rng.choice([0, dec, dec, dec, dec + 1, max(0, dec - 1)])
            if k:
                s += "." + "".join(rng.choice("0123459999") for _ in range(k))
            if rng.random() < 0.4:
                s = "-" + s
            if rng.random() < 0.1:
                s = s.replace("-", "-00") if s.startswith("-") else "0" + s
        return s
    txns = []
    for _ in range(rng.choice([1, 2, 5, 12])):
        k = rng.choice([2, 2, 3, 4])
        ts = [num() for _ in range(k - 1)]
        rest = -sum(units(t, dec) for t in ts)
        if rng.random() < 0.03:
            rest += rng.choice([1, -1, 10 ** dec])
        last = amt(rest, dec)
        if rng.random() < 0.15:
            last = last + ("" if dec else ".") + rng.choice(["0", "7", "49"])
        ts.append(last)
        if rng.random() < 0.2:
            i = rng.randrange(k)
            ts[i] = ts[i] if units(ts[i], dec) else ts[i]
        txns.append(ts)
    left = rng.random() < 0.3                       # the last amounts left out
    lines = ["commodity XYZ", "  format 1%s XYZ" % ("." + "0" * dec if dec else ""), "  default", ""]
    open(os.path.join(d, "commodities.coin"), "w").write("\n".join(lines))
    open(os.path.join(d, "prices.coin"), "w").write("")
    open(os.path.join(d, "accounts.coin"), "w").write("".join("account %s\n  commodity XYZ\n\n" % a for a in ["A"] + accts))
    where, text = [], []
    for i, ts in enumerate(txns):
        ac = [rng.choice(accts) for _ in ts]
        where.append(ac)
        text.append("2020/01/%02d t%d" % (i + 1, i))
        for j, (a, t) in enumerate(zip(ac, ts)):
            text.append("  " + a + ("  " + t + " XYZ" if not (left and j == len(ts) - 1) else ""))
        text.append("")
    open(os.path.join(d, "transactions.coin"), "w").write("\n".join(text))
    keep_files(case, d)
    rc, out, err = coin(chk, d, ["balance", "-z"])
    stated = [ts[:-1] if left else ts for ts in txns]
    if left:
        fits = all(abs(int(t.replace(".", ""))) < 2 ** 63 for ts in stated for t in ts)
        if rc != 0:
            if fits:
                case.local.append(dict(what="a ledger is rejected", expected="accepted", observed=err[-300:], event=1))
            return
    else:
        case.add("accepted", txns=txns, dec=dec, ok=rc == 0)
        if rc != 0:
            return

    def amounts(acct):
        """Texts of the postings to acct (and its sub-accounts), each with its sign."""
        out = []
        for ac, ts in zip(where, txns):
            for j, (a, t) in enumerate(zip(ac, ts)):
                if a == acct or a.startswith(acct + ":") or acct == "Root":
                    if left and j == len(ts) - 1:
                        out += [neg(x) for x in ts[:-1]]
                    else:
                        out.append(t)
        return out

    def neg(t):
        return t[1:] if t.startswith("-") else "-" + t

    for r in read_balance(rc, out)["rows"]:
        if len(r) != 4:
            case.local.append(dict(what="unreadable row of balance", expected="", observed=r, event=1))
            continue
        own = [t for ac, ts in zip(where, txns) for j, (a, t0) in enumerate(zip(ac, ts)) if a == r[3] for t in ([neg(x) for x in ts[:-1]] if left and j == len(ts) - 1 else [t0])]
        case.add("sum", what="own balance of " + r[3], texts=own, dec=dec, negated=False, got=r[0])
        case.add("sum", what="cumulative balance of " + r[3], texts=amounts(r[3]), dec=dec, negated=False, got=r[1])
    for a in accts:
        rc, out, err = coin(chk, d, ["register", a])
        rows = [ln.split("|") for ln in out.splitlines()[1:]]
        k, seen = 0, []
        for i, (ac, ts) in enumerate(zip(where, txns)):
            for j, (b, t) in enumerate(zip(ac, ts)):
                if b != a:
                    continue
                this = [neg(x) for x in ts[:-1]] if left and j == len(ts) - 1 else [t]
                seen = seen + this
                if k >= len(rows):
                    case.local.append(dict(what="register lacks rows", expected=k + 1, observed=out, event=1))
                    return
                f = [x.strip() for x in rows[k]]
                got = f[3].split()[0] if len(f) >= 5 else "?"
                run_ = f[4].split()[0] if len(f) >= 5 else "?"
                case.add("sum", what="amount in the register of " + a, texts=this, dec=dec, negated=False, got=got)
                case.add("sum", what="running total in the register of " + a, texts=seen, dec=dec, negated=False, got=run_)
                k += 1
    rc, out, err = coin(chk, d, ["format", os.path.join(d, "transactions.coin")])
    got = [ln.split() for ln in out.splitlines() if ln.startswith(" ")]
    k = 0
    for ac, ts in zip(where, txns):
        for j, (a, t) in enumerate(zip(ac, ts)):
            this = [neg(x) for x in ts[:-1]] if left and j == len(ts) - 1 else [t]
            if rc != 0 or k >= len(got) or len(got[k]) != 3:
                case.local.append(dict(what="format does not show a posting", expected=t, observed=[rc, out[-300:], err[-300:]], event=1))
                return
            case.add("sum", what="amount written by format", texts=this, dec=dec, negated=False, got=got[k][1])
            k += 1
    rc, out, err = coin(chk, d, [], exe="coin2html")
    if rc == 0:
        try:
            ps = [p for t in html_blocks(out)["importedTransactions"] for p in t["postings"]]
        except Exception as e:
            ps = []
        run_ = {}
        k = 0
        for ac, ts in zip(where, txns):
            for j, (a, t) in enumerate(zip(ac, ts)):
                this = [neg(x) for x in ts[:-1]] if left and j == len(ts) - 1 else [t]
                if k < len(ps):
                    case.add("sum", what="exported amount", texts=this, dec=dec, negated=False, got=ps[k]["quantity"].split()[0])
                    run_[a] = run_.get(a, []) + this
                    case.add("sum", what="exported running balance", texts=run_[a], dec=dec, negated=False, got=ps[k]["balance"].split()[0])
                k += 1
    case.weight = 10 + sum(len(json.dumps(e)) for e in case.events) // 200


MC_AMOUNTS = "SPECIFICATION MCSpec\nCONSTANTS LimbDigits = %d Biggest = %d MaxDec = %d\nINVARIANTS InverseOk AddOk NegOk CmpOk MulOk TimesOk PrintOk DropOk QuotOk\nCHECK_DEADLOCK FALSE\n"


def c11(chk):
    chk.build("coin", "coin2html")
    values_driver(chk)
    for limb in (1, 2):
        chk.model("amounts-%d" % limb, "MC_Amounts", MC_AMOUNTS % (limb, scale(chk, 30 if limb == 1 else 25, 125), scale(chk, 2, 3)), workers=8)
    n = scale(chk, 500, 6000) if chk.driver else 0
    chk.run_cases([("operations-%d" % i, c11_driver) for i in range(n)] + [("ledger-%d" % i, c11_ledger) for i in range(scale(chk, 250, 2500))])
    chk.validate("Trace_Amounts", constants="CONSTANT LimbDigits = 4")
    return chk.finish("model_checking", "random sequences of operations on amounts (numerals of up to 40 digits around the limits of machine numbers, 0 to 12 decimals) and ledgers with such amounts; non-trivial when distinct",
                      VALUE_ASSUMPTIONS)


def values_driver(chk):
    """The driver needs the exported functions as they are; without it only the programs are checked."""
    try:
        chk.build_driver("values", os.path.join(VERIF, "drivers", "values"), "cmd/verifvalues")
        chk.driver = True
    except CheckError as e:
        chk.driver = False
        chk.notes.append("the driver does not build against this tree: " + str(e)[-300:])


def c10_big(chk, case, d, rng):
    """Conversions of amounts of any size: the total of a parent account in another commodity."""
    xd, yd = rng.choice([0, 2, 3, 6, 8]), rng.choice([0, 2, 2, 4, 8])

    def num(dec, n):
        s = str(rng.randrange(1, 10 ** rng.randrange(1, n)))
        return s + ("." + "".join(rng.choice("0123456789") for _ in range(rng.choice([dec, dec, max(1, dec - 1)]))) if dec else "")
    price_, a = num(yd, 8), ("-" if rng.random() < 0.4 else "") + num(xd, 11)
    if not units(price_, yd):
        price_ = "3"
    w = lambda n, t: open(os.path.join(d, n), "w").write(t)
    w("commodities.coin", "".join("commodity %s\n  format 1%s %s\n%s\n" % (c, "." + "0" * k if k else "", c, "  default\n" if c == "YYY" else "") for c, k in (("XXX", xd), ("YYY", yd))))
    w("prices.coin", "P 2020/01/01 XXX %s YYY\n" % price_)
    w("accounts.coin", "account P\n  commodity YYY\n\naccount P:X\n  commodity XXX\n\naccount E\n  commodity YYY\n")
    w("transactions.coin", "2020/01/02 big\n  P:X  %s XXX\n  E  1 YYY\n" % a)
    keep_files(case, d)
    rc, out, err = coin(chk, d, ["balance", "-z", "P"])
    rows = [r for r in read_balance(rc, out)["rows"] if len(r) == 4 and r[3] == "P"]
    case.add("converted", what="amount converted for the parent account", text=a, dec=xd, price=price_, pdec=yd, got=rows[0][1] if rows else "none: " + err[-200:])


# -- C12 ----------------------------------------------------------------------------------------------
def date_expr(rng, today, near=None):
    t = today + datetime.timedelta(days=near if near is not None else rng.choice([0, 1, -1, 30, -30, 182, 183, -182, -183, 184, 365, -365, 366]) if rng.random() < 0.5 else rng.randrange(-20000, 20000) if rng.random() < 0.3 else rng.randrange(-400, 400))
    if rng.random() < 0.15:
        t = datetime.date(t.year if 1 <= t.year <= 9999 else 2000, *rng.choice([(2, 28), (3, 1), (12, 31), (1, 1), (1, 31), (2, 1)]))
    m, dd = t.month, t.day
    if rng.random() < 0.08:
        m, dd = 2, 29
    if rng.random() < 0.06:
        m, dd = rng.choice([(2, 30), (2, 31), (4, 31), (13, 1), (0, 1), (1, 0), (12, 32), (6, 31), (99, 99), (0, 0)])
    f = lambda n: ("%02d" if rng.random() < 0.4 else "%d") % n
    y = t.year
    r = rng.random()
    if r < 0.3:
        s = "%04d/%s/%s" % (y, f(m), f(dd))
    elif r < 0.5:
        y2 = (t.year + rng.choice([0, 0, rng.randrange(-50, 51), 49, 50, 51, -49, -50, -51])) % 100
        s = "%02d/%s/%s" % (y2, f(m), f(dd))
    elif r < 0.75:
        s = "%s/%s" % (f(m), f(dd))
    elif r < 0.82:
        s = "%04d/%s" % (y, f(m))
    elif r < 0.87:
        s = "%04d" % y
    else:
        s = ""
    if s == "" or rng.random() < 0.25:
        n = rng.choice([0, 1, 2, 7, 11, 12, 13, 25, 28, 29, 30, 31, 36, 52, 100, 365, 366, 1000])
        if near is not None:
            n = rng.randrange(0, 12)
        elif rng.random() < 0.1:
            n = rng.choice([10 ** 5, 2 * 10 ** 6, 3000000, 8000 * 12, 10 ** 7, 2 ** 31, 2 ** 63, 10 ** 20, 99999, 400000])
        s += rng.choice("+-") + ("%d" if rng.random() < 0.85 else "%03d") % n + rng.choice("dddwwmmy" if near is not None else "dwmyy" if n < 3000 else "dw")
    if rng.random() < 0.12:
        i = rng.randrange(len(s) + 1)
        s = rng.choice([s[:i] + rng.choice("/+-dx 0 .,1") + s[i:], s[:i] + s[i + 1:], s + s, "", "today", "2020-01-01", "2020.1.1", "+d", "+1", "-", "/", "1/", "/1", "//", "+1q", "1 d", "+1D", "20/1", "1/2/3", "2020/1/1/", "２０２０",
                        "012/1/1", "12020/1/1", "2020/001/1", "1/001", "+1d+1m", s + "+1d-1d", "+ 1d", "+1.5d", " " + s, s + "\n"])
    return s


def rand_today(rng):
    r = rng.random()
    y = rng.choice([2019, 2020, 2021, 2023, 2024, 1999, 2000, 2001, 2049, 2050, 2051, 2099, 2100, 2101, 1900, 1950, 1970]) if r < 0.7 else rng.randrange(1000, 9000)
    k = rng.random()
    if k < 0.5:
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (6, 30), (7, 1), (7, 2), (7, 3), (1, 31), (8, 31), (8, 29), (8, 30), (12, 1)])
        return datetime.date(y, m, d)
    if k < 0.6 and (y % 4 == 0 and (y % 100 or y % 400 == 0)):
        return datetime.date(y, 2, 29)
    return datetime.date(y, 1, 1) + datetime.timedelta(days=rng.randrange(365))


def number_of(day):
    return (day - EPOCH).days


def c12_driver(chk, case, d, rng):
    today = rand_today(rng)
    texts = [date_expr(rng, today) for _ in range(30)]
    plain = [s for s in texts if "\n" not in s]
    ops = [dict(op="dates", today="%04d/%02d/%02d" % (today.year, today.month, today.day), texts=texts)]
    res, rc, err = drive(chk, ops)
    case.replay["operations"] = ops
    if short(case, res, ops, rc, err):
        return
    case.add("dates", today=number_of(today), cases=[dict(s=c["s"], ok=c["ok"], out=c["out"]) for c in res[0]["cases"]])
    # ledger entries with those that were accepted (reading others ends the program)
    good = [c["s"] for c in res[0]["cases"] if c["ok"] and re.match(r"\d[\d/+\-dwmy]*$", c["s"])]
    if good:
        ops = [dict(op="entries", today=ops[0]["today"], texts=good)]
        res, rc, err = drive(chk, ops)
        case.replay["entries"] = ops
        if short(case, res, ops, rc, err):
            return
        if not res[0]["ok"]:
            case.local.append(dict(what="reading an entry with a date that is an option panics", expected="", observed=res[0], event=1))
            return
        case.add("dates", today=number_of(today), cases=[dict(s=c["s"], ok=c["ok"], out=c["out"]) for c in res[0]["cases"]])
    case.weight = 40


def c12_entries(chk, case, d, rng):
    """Dates of ledger entries, read by the program on the actual day."""
    today = date_in(d)
    cases = []
    w = lambda n, t: open(os.path.join(d, n), "w").write(t)
    w("commodities.coin", "commodity XYZ\n  default\n")
    w("prices.coin", "")
    w("accounts.coin", "account A\n  commodity XYZ\n\naccount B\n  commodity XYZ\n")
    for _ in range(6):
        s = date_expr(rng, today)
        if not re.match(r"\d\S*$", s) or ";" in s:
            continue
        kind = rng.choice(["txn", "txn", "price", "closed"])
        w("prices.coin", "P %s XYZ 1.00 XYZ\n" % s if kind == "price" else "")
        w("accounts.coin", "account A\n  commodity XYZ\n%s\naccount B\n  commodity XYZ\n" % ("  closed %s\n" % s if kind == "closed" else ""))
        w("transactions.coin", "%s entry\n  A  1 XYZ\n  B\n" % (s if kind == "txn" else "2000/01/01"))
        rc, out, err = coin(chk, d, [], exe="coin2html")
        got = ""
        if rc == 0:
            b = html_blocks(out)
            got = b["importedTransactions"][0]["posted"] if kind == "txn" else b["importedPrices"][0]["time"] if kind == "price" else b["importedAccounts"]["A"].get("closed", "")
            if kind == "txn":
                rc2, out2, _ = coin(chk, d, ["format", os.path.join(d, "transactions.coin")])
                rc3, out3, _ = coin(chk, d, ["register", "A"])
                for o in (out2.split()[:1], out3.splitlines()[1:2] and out3.splitlines()[1].split()[:1]):
                    if o != [got]:
                        got = "%s and %s" % (got, o)
        cases.append(dict(s=s, ok=rc == 0, out=got))
        case.replay.setdefault("expressions", []).append([kind, s])
    if cases:
        case.add("dates", today=number_of(today), cases=cases)


def c12_options(chk, case, d, rng):
    """Dates of options, on the actual day, over a ledger with a transaction on every day of a range."""
    today = date_in(d)
    mid = today + datetime.timedelta(days=rng.choice([0, 0, 0, 0, -90, 90, 365, -365]))
    lo, hi = number_of(mid) - 190, number_of(mid) + 190      # a date without year is at most half a year away
    w = lambda n, t: open(os.path.join(d, n), "w").write(t)
    w("commodities.coin", "commodity XYZ\n  default\n")
    w("prices.coin", "")
    w("accounts.coin", "account A\n  commodity XYZ\n\naccount B\n  commodity XYZ\n")
    w("transactions.coin", "".join("%s entry\n  A  1 XYZ\n  B\n" % date_text(n) for n in range(lo, hi + 1)))
    for _ in range(10):
        k = rng.random()
        s = (date_expr(rng, today, near=None if k < 0.15 else rng.randrange(-200, 200) + (mid - today).days) if k < 0.6 else
             date_expr(rng, today, near=rng.choice([181, 182, 183, 184]) * rng.choice([1, -1])) if k < 0.75 else
             rng.choice("+-") + str(rng.randrange(27)) + rng.choice("ddwm"))
        if s.startswith("\n") or "\0" in s:
            continue
        opt = rng.choice("be")
        cmd = rng.choice(["register", "register", "balance"])
        arg = ["-%s=%s" % (opt, s)] if rng.random() < 0.4 or s.startswith("-") else ["-" + opt, s]
        if cmd == "register":
            rc, out, err = coin(chk, d, ["register"] + arg + ["A"])
            rows = [ln.split()[0] for ln in out.splitlines()[1:]]
            obs_ = dict(count=len(rows), first=rows[0] if rows else "", last=rows[-1] if rows else "")
        else:
            rc, out, err = coin(chk, d, ["balance", "-z"] + arg + ["A"])
            rows = [r for r in read_balance(rc, out)["rows"] if len(r) == 4 and r[3] == "A"]
            obs_ = dict(count=int(float(rows[0][0])) if rows else 0, first="", last="")
        case.replay.setdefault("options", []).append([cmd] + arg)
        case.add("option", today=number_of(today), opt=opt, s=s, ok=rc == 0, lo=lo, hi=hi, full=cmd == "register", obs=obs_)


MC_DATES = "SPECIFICATION MCSpec\nCONSTANTS Starts = {%s} Span = %d Full = %s\nINVARIANTS Inverted Successor Starting Moved FullDate Near Far TwoDigits Fifty Parts Offsets Nothing\nCHECK_DEADLOCK FALSE\n"


def c12(chk):
    chk.build("coin", "coin2html")
    values_driver(chk)
    if chk.thorough:
        chk.model("dates", "MC_Dates", MC_DATES % (", ".join(str(y) for y in range(1890, 2110, 5)), 1827, "FALSE"), workers=8)
        chk.model("dates-full", "MC_Dates", MC_DATES % ("1899, 1999, 2019, 2022, 2049, 2099", 430, "TRUE"), workers=8)
        chk.model("dates-far", "MC_Dates", MC_DATES % (", ".join(str(y) for y in range(151, 9895, 97)), 31, "FALSE"), workers=8)
    else:
        chk.model("dates", "MC_Dates", MC_DATES % ("151, 1899, 1999, 2018, 2019, 2020, 2024, 2099, 9895", 366, "FALSE"), workers=8)
    n = scale(chk, 350, 6000) if chk.driver else 0
    chk.run_cases([("expressions-%d" % i, c12_driver) for i in range(n)] + [("entries-%d" % i, c12_entries) for i in range(scale(chk, 60, 1000))] +
                  [("options-%d" % i, c12_options) for i in range(scale(chk, 60, 1000))])
    chk.validate("Trace_Dates")
    return chk.finish("model_checking", "random date expressions (all forms, offsets, impossible and malformed ones) on random days with emphasis on year, month and century ends, as options and in entries; non-trivial when distinct",
                      VALUE_ASSUMPTIONS + ["The programs are run on the actual day only; other days are set through coin.WithDate."])


# -- C20 ----------------------------------------------------------------------------------------------
def lists(r):
    return [dict(acct=a, ids=ids) for a, ids in sorted(r["lists"].items())]


def c20_replay(chk, case, load, hist):
    """load: transactions loaded from a ledger first; hist: operations."""
    ops, evs = [], []
    n = 0
    if load:
        text, posts, accts = load
        ops.append(dict(op="p-load", text=text, accts=accts))
        evs.append(("post", dict(posts=posts)))
        n = max([p["id"] for p in posts] + [0]) // 2 + 1
        n = max(n, max([p["txn"] for p in posts] + [0]))
    nid, txn_day = 10000 if load else 0, {}
    t = n
    for h in hist:
        if h["op"] == "post":
            if h.get("txn"):
                k, day = h["txn"], h["day"]
            else:
                t += 1
                k, day = t, h["day"]
            ids = [nid + 1, nid + 2]
            nid += 2
            ops.append(dict(op="p-post", txn=k, day=day, ids=ids, multi=h.get("multi", False), **{"from": h["from"], "to": h["to"]}))
            evs.append(("post", dict(posts=[dict(id=ids[0], acct=h["from"], day=day, txn=k), dict(id=ids[1], acct=h["to"], day=day, txn=k)])))
        elif h["op"] == "move":
            ops.append(dict(op="p-move", id=h["id"], to=h["to"]))
            evs.append(("move", dict(id=h["id"], to=h["to"])))
        else:
            ops.append(dict(op="p-drop", txns=h["txns"]))
            evs.append(("drop", dict(txns=h["txns"])))
    res, rc, err = drive(chk, ops)
    case.replay["operations"] = ops
    for (e, kw), o, r in zip(evs, ops, res):
        if not r["ok"]:
            case.local.append(dict(what="operation on postings fails", expected="a result", observed=[o, r.get("panic")], event=len(case.events)))
            return
        case.add(e, lists=lists(r), **kw)
    short(case, res, ops, rc, err)
    case.weight = 5 + sum(len(json.dumps(e)) for e in case.events) // 300


def c20_random(chk, case, d, rng):
    accts = ["A", "B", "C", "D"][:rng.choice([2, 3, 4])]
    days = rng.choice([list(range(1)), list(range(2)), list(range(4)), list(range(30)), [rng.randrange(-900, 900) for _ in range(6)], [-366, 0, 1, 365, 366, 731]])
    owner, live, load = {}, {}, None
    hist = []
    t = nid = 0
    if rng.random() < 0.5:
        lines = ["commodity XYZ", "  default", ""]
        for a in accts:
            lines += ["account " + a, "  commodity XYZ", ""]
        posts, i = [], 0
        for t in range(1, rng.choice([2, 5, 12]) + 1):
            day = rng.choice(days)
            lines.append("%s %d" % (date_text(DAY_2020 + day), t))
            k = rng.choice([2, 2, 3, 4])
            live[t] = (day, [])
            for j in range(k):
                i += 1
                a = rng.choice(accts)
                lines += ["  %s  %d XYZ ; %d" % (a, 1 if j else 1 - k, i)]
                posts.append(dict(id=i, acct=a, day=day, txn=t))
                owner[i] = a
                live[t][1].append(i)
            lines.append("")
        load = ("\n".join(lines) + "\n", posts, accts)
        nid = 10000
        t = max(max(p["id"] for p in posts) // 2 + 1, t)
    for _ in range(rng.choice([5, 15, 40, 80])):
        r = rng.random()
        if r < 0.5 or not live:
            a, b = rng.sample(accts, 2)
            k = None
            if live and rng.random() < 0.2:
                k = rng.choice(sorted(live))
                day = live[k][0]
            else:
                t += 1
                day = rng.choice(days)
                live[t] = (day, [])
            hist.append(dict(op="post", day=day, multi=rng.random() < 0.3, **{"from": a, "to": b}))
            if k:
                hist[-1]["txn"] = k
            k = k or t
            live[k][1].extend([nid + 1, nid + 2])
            owner[nid + 1], owner[nid + 2] = a, b
            nid += 2
        elif r < 0.9:
            ids = [i for day, ps in live.values() for i in ps]
            i = rng.choice(ids)
            b = rng.choice([a for a in accts if a != owner[i]])
            owner[i] = b
            hist.append(dict(op="move", id=i, to=b))
        else:
            ts = sorted(live)
            ts = rng.sample(ts, rng.choice([1, 1, max(1, len(ts) // 3), len(ts) if rng.random() < 0.2 else 1]))
            for x in ts:
                for i in live[x][1]:
                    del owner[i]
                del live[x]
            hist.append(dict(op="drop", txns=ts))
    c20_replay(chk, case, load, hist)


MC_POSTINGS = "SPECIFICATION MCSpec\nCONSTANTS Accts = {%s} Days = {%s} MaxOps = %d\nINVARIANTS Once InOrder GoesAfter Emitted\nPROPERTY OthersStay\nCHECK_DEADLOCK FALSE\n"


def c20(chk):
    chk.build_driver("values", os.path.join(VERIF, "drivers", "values"), "cmd/verifvalues")
    scn = emitted(chk.model("postings", "MC_PostingIndex", MC_POSTINGS % ('"A", "B"', "0, 1", scale(chk, 4, 5)), workers=8))
    if chk.thorough:
        scn += emitted(chk.model("postings-3", "MC_PostingIndex", MC_POSTINGS % ('"A", "B", "C"', "0, 1, 2", 3), workers=8))

    def enumerated(s):
        return lambda chk, case, d, rng: c20_replay(chk, case, None, s["hist"])
    chk.run_cases([("history-%d" % i, enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 1500, 15000)))] +
                  [("random-%d" % i, c20_random) for i in range(scale(chk, 500, 6000))])
    chk.validate("Trace_Postings")
    return chk.finish("model_checking", "all histories of MC_PostingIndex (sampled) and long random ones, with transactions loaded from ledgers first; non-trivial when distinct", VALUE_ASSUMPTIONS)
