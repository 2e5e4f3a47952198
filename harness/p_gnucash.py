"""C22: conversion of GnuCash books."""
import gzip, os, random, re
from core import run
from ledger import *
from p_ledger import emitted, sample, scale
from xml.sax.saxutils import escape

WORD = re.compile(r"\w+")


# -- the book as a file -------------------------------------------------------------------------------
def element(tag, body, attr=""):
    return "<%s%s>%s</%s>\n" % (tag, attr, body, tag)


def fraction(x):
    return ("-" if x["neg"] else "") + x["num"] + "/" + x["den"]


def commodity_ref(tag, com):
    return element(tag, element("cmdty:space", "CURRENCY" if len(com) == 3 else "FUND") + element("cmdty:id", com))


def book_xml(b, rng=None):
    r = rng or random.Random(0)
    out = ['<?xml version="1.0" encoding="utf-8" ?>\n<gnc-v2\n  xmlns:gnc="http://www.gnucash.org/XML/gnc"\n  xmlns:cd="http://www.gnucash.org/XML/cd">\n',
           '<gnc:count-data cd:type="book">1</gnc:count-data>\n<gnc:book version="2.0.0">\n<book:id type="guid">0</book:id>\n']
    for c in b["coms"]:
        s = element("cmdty:space", "template" if c["note"] == "template" else "CURRENCY") + element("cmdty:id", c["id"])
        if c["note"]:
            s += element("cmdty:name", escape(c["note"]))
        if c["dec"] >= 0:
            s += element("cmdty:fraction", str(10 ** c["dec"]))
        elif r.random() < 0.5:
            s += "<cmdty:get_quotes/>\n"
        out.append(element("gnc:commodity", s, ' version="2.0.0"'))
    if b["prices"] or r.random() < 0.5:
        ps = ""
        for i, p in enumerate(b["prices"]):
            ps += element("price", element("price:id", "p%d" % i, ' type="guid"') + commodity_ref("price:commodity", p["com"]) + commodity_ref("price:currency", p["cur"]) +
                          element("price:time", element("ts:date", p["stamp"])) + element("price:source", r.choice(["user:price", "Finance::Quote"])) +
                          (element("price:type", r.choice(["unknown", "bid", "last", "transaction"])) if r.random() < 0.6 else "") + element("price:value", fraction(p)))
        out.append(element("gnc:pricedb", ps, ' version="1"'))
    for a in b["accts"]:
        s = element("act:name", escape(a["name"])) + element("act:id", a["guid"], ' type="guid"') + element("act:type", a["type"])
        if a["com"]:
            s += commodity_ref("act:commodity", a["com"]) + element("act:commodity-scu", "100")
        if a["note"]:
            s += element("act:description", escape(a["note"]))
        slots = []
        if a["acctid"]:
            slots.append(("online_id", (a["bank"] + " " if a["bank"] else "") + a["acctid"]))
        elif r.random() < 0.05:
            slots.append(("online_id", "none"))
        if r.random() < 0.3:
            slots.insert(r.randrange(len(slots) + 1), ("color", "Not Set"))
        if slots:
            s += element("act:slots", "".join(element("slot", element("slot:key", k) + element("slot:value", v, ' type="string"')) for k, v in slots))
        if a["parent"]:
            s += element("act:parent", a["parent"], ' type="guid"')
        out.append(element("gnc:account", s, ' version="2.0.0"'))
    for i, t in enumerate(b["txns"]):
        s = element("trn:id", "t%d" % i, ' type="guid"') + commodity_ref("trn:currency", b["coms"][0]["id"])
        if t["code"]:
            s += element("trn:num", escape(t["code"]))
        s += element("trn:date-posted", element("ts:date", t["stamp"])) + element("trn:date-entered", element("ts:date", "2021-02-03 04:05:06 +0000"))
        if t["desc"] or r.random() < 0.5:
            s += element("trn:description", escape(t["desc"]))
        if r.random() < 0.2:
            s += element("trn:slots", element("slot", element("slot:key", "notes") + element("slot:value", "a\nb", ' type="string"')))
        sp = ""
        for k, x in enumerate(t["splits"]):
            sp += element("trn:split", element("split:id", "s%d-%d" % (i, k), ' type="guid"') + (element("split:memo", escape(x["memo"])) if x["memo"] else "") +
                          (element("split:action", r.choice(["Buy", "Sell", "Fee", "a memo"])) if r.random() < 0.3 else "") +
                          element("split:reconciled-state", r.choice("yncfv")) + (element("split:reconcile-date", element("ts:date", "2019-02-03 04:05:06 +0000")) if r.random() < 0.2 else "") +
                          element("split:value", "%d/100" % r.randrange(-999, 999)) +
                          element("split:quantity", fraction(x)) + element("split:account", x["acct"], ' type="guid"'))
        s += element("trn:splits", sp)
        out.append(element("gnc:transaction", s, ' version="2.0.0"'))
    if r.random() < 0.4:
        # scheduled transactions have accounts and transactions of their own
        out.append(element("gnc:template-transactions", element("gnc:account", element("act:name", "Template Root") + element("act:id", "tr", ' type="guid"') + element("act:type", "ROOT"), ' version="2.0.0"')))
    out.append("</gnc:book>\n</gnc-v2>\n\n<!-- Local variables: -->\n")
    return "".join(out)


# -- reading what was written -------------------------------------------------------------------------
P_LINE = re.compile(r'P (\d{4}/\d\d/\d\d) (\S+) (-?[\d.]+) (\S+)')
T_LINE = re.compile(r"(\d{4}/\d\d/\d\d)(?: \((\w+)\))?(?: ([^;]*?))? *(?:; (.*))?")
S_LINE = re.compile(r"  (\S+) +(-?[\d.]+) (\S+)(?: ; (.*))?")


class Reader:
    def __init__(self):
        self.bad, self.quoted = [], {}

    def com(self, t):
        q = t.startswith('"') and t.endswith('"') and len(t) > 1
        t = t.strip('"')
        self.quoted.setdefault(t, set()).add(q)
        return t

    def blocks(self, text):
        return [[x for x in b.split("\n") if x.strip()] for b in re.split(r"\n[ \t]*\n", text) if b.strip()]

    def commodities(self, blocks):
        out = []
        for b in blocks:
            c = dict(id=self.com(b[0].split(" ")[1]), dec=-2, note="")
            for x in b[1:]:
                if x.startswith("  note "):
                    c["note"] = x[7:].strip()
                elif re.fullmatch(r"  format 1(\.0+)? \S+", x):
                    c["dec"] = x.split(" ")[3][2:].count("0")
                    if self.com(x.split(" ")[4]) != c["id"]:
                        self.bad.append(x)
                else:
                    self.bad.append(x)
            out.append(c)
        return out

    def accounts(self, blocks):
        out = []
        for b in blocks:
            a = dict(name=b[0].split(" ", 1)[1], com="", note="", bank="", acctid="")
            for x in b[1:]:
                k, _, v = x.strip().partition(" ")
                if k == "commodity":
                    a["com"] = self.com(v)
                elif k == "note":
                    a["note"] = v.strip()
                elif k in ("ofx_bankid", "ofx_acctid"):
                    a["bank" if k == "ofx_bankid" else "acctid"] = v
                else:
                    self.bad.append(x)
            out.append(a)
        return out

    def prices(self, text):
        out = []
        for x in text.split("\n"):
            if x.strip():
                m = P_LINE.fullmatch(x)
                if m:
                    out.append(dict(date=m[1], com=self.com(m[2]), cur=self.com(m[4]), value=m[3]))
                else:
                    self.bad.append(x)
        return out

    def transactions(self, blocks):
        out = []
        for b in blocks:
            m = T_LINE.fullmatch(b[0])
            if not m:
                self.bad.append(b[0])
                continue
            t = dict(date=m[1], code=m[2] or "", desc=(m[3] or "").strip(), notes=[m[4].strip()] if m[4] else [], posts=[])
            for x in b[1:]:
                p = S_LINE.fullmatch(x)
                if p:
                    t["posts"].append(dict(acct=p[1], amount=p[2], com=self.com(p[3]), notes=[p[4].strip()] if p[4] else []))
                elif x.strip().startswith("; "):
                    (t["posts"][-1] if t["posts"] else t)["notes"].append(x.strip()[2:].strip())
                else:
                    self.bad.append(x)
            out.append(t)
        return out


def read_dir(d, rd, yearly):
    def text(n):
        return open(os.path.join(d, n)).read()
    names = sorted(os.listdir(d))
    coms = rd.commodities(rd.blocks(text("commodities.coin"))) if "commodities.coin" in names else []
    accts = rd.accounts(rd.blocks(text("accounts.coin"))) if "accounts.coin" in names else []
    pf = [n for n in names if n == "prices.coin" or n.endswith(".prices")]
    tf = [n for n in names if n not in pf + ["commodities.coin", "accounts.coin"]]
    return coms, accts, [dict(name=n, items=rd.prices(text(n))) for n in pf], [dict(name=n, items=rd.transactions(rd.blocks(text(n)))) for n in tf]


def read_stream(text, rd):
    """What goes to the standard output, without a directory."""
    prices = "\n".join(x for x in text.split("\n") if x.startswith("P "))
    rest = re.sub(r"(?m)^P .*\n", "", text)
    bl = rd.blocks(rest)
    coms = [b for b in bl if b[0].startswith("commodity ")]
    accts = [b for b in bl if b[0].startswith("account ")]
    txns = [b for b in bl if b not in coms and b not in accts]
    if bl != coms + accts + txns:
        rd.bad.append("order of the parts")
    return rd.commodities(coms), rd.accounts(accts), [dict(name="prices.coin", items=rd.prices(prices))], [dict(name="transactions.coin", items=rd.transactions(txns))]


def convert(chk, case, d, book, rng, name, yearly=False, ledger=False, stdout=False):
    db = os.path.join(d, name)
    os.mkdir(db)
    env = dict(os.environ, **clock_in(d))
    env.pop("COINDB", None)
    if not stdout:
        env["COINDB"] = db
    args = (["-y"] if yearly else []) + (["-l"] if ledger else [])
    if name.endswith("2"):
        env["GNUCASHDB"] = os.path.join(d, "book.gnucash")
    else:
        args += ["-gnucashdb", os.path.join(d, "book.gnucash")]
    rc, out, err = run([chk.exe("gc2coin")] + args, cwd=d, env=env)
    rd = Reader()
    got = [[], [], [], []]
    if rc == 0:
        got = read_stream(out, rd) if stdout else read_dir(db, rd, yearly)
        if out and not stdout:
            rd.bad.append(out)
        for x in rd.bad:
            case.local.append(dict(what="unreadable output", expected="", observed=x, event=len(case.events)))
    quoted = [dict(id=k, q=q) for k, v in sorted(rd.quoted.items()) for q in sorted(v)]
    case.add("converted", ok=rc == 0, ledger=ledger, yearly=yearly, coms=got[0], accts=got[1], prices=got[2], txns=got[3], quoted=quoted if ledger else [x for x in quoted if x["q"]],
             args=" ".join(args), stderr=err[-400:] if rc else "")
    if rc == 0 and not stdout and not ledger:
        rc, out, err = coin(chk, db, ["stats"])
        rows = []
        live = sorted({s["acct"] for t in book["txns"] for s in t["splits"]})
        for g in live if rng is None else rng.sample(live, min(len(live), 3)):
            a = full_name(book, g)
            rc2, out2, err2 = coin(chk, db, ["register", a])
            got = read_register(rc2, out2, dict(r=False, f=False, n=False))
            rows.append([a, got["rows"][-1][4].split(" ")[0] if rc2 == 0 and got["rows"] else "?"])
        case.add("loaded", ok=rc == 0, rows=rows if rc == 0 else [], stderr=err[-300:] if rc else "")


def full_name(book, guid):
    a = next(x for x in book["accts"] if x["guid"] == guid)
    n = a["name"].replace(" ", "")
    p = next((x for x in book["accts"] if x["guid"] == a["parent"]), None)
    return n if p is None or p["type"] == "ROOT" else full_name(book, p["guid"]) + ":" + n


def observe(chk, case, d, rng, book, yearly=None):
    x = book_xml(book, rng)
    with gzip.open(os.path.join(d, "book.gnucash"), "wt", compresslevel=1) as f:
        f.write(x)
    case.replay["files"] = {"book.gnucash (uncompressed)": x}
    case.add("book", book=book)
    convert(chk, case, d, book, rng, "single" if rng is None or rng.random() < 0.7 else "single2")
    if yearly is None or yearly:
        convert(chk, case, d, book, rng, "years", yearly=True)
    if rng and rng.random() < 0.4:
        convert(chk, case, d, book, rng, "out", stdout=True, ledger=rng.random() < 0.5)
    if rng and rng.random() < 0.2:
        convert(chk, case, d, book, rng, "ledger", ledger=True)


# -- random books -------------------------------------------------------------------------------------
NAMES = ["Assets", "Bank", "My Bank", "Checking Account", "Visa", "Expenses", "Food", "Fuel/Gas", "e-Trade", "Long Term Savings", "A1", "x_y", "Income", "Bank2", "Cash"]
TEXTS = ["Groceries", "Transfer", "Sienna - gas", "a - b - c", "Fish & Chips", "x <y>", "Salary 'May'", "ACME - Inc", "1234", "Rent-a-car", "- dash", "two  blanks", "a -b"]


def stamp(rng, days):
    d = rng.choice(days)
    return "%s %s %s" % (d, rng.choice(["05:59:00", "10:59:00", "00:00:00", "23:59:59", "12:30:01"]), rng.choice(["+0000", "-0500", "-0400", "+0900", "+0530", "-1100", "+1400"]))


def rand_frac(rng, dec):
    k = rng.random()
    if k < 0.5:
        den = 10 ** dec
    elif k < 0.85:
        den = 10 ** rng.choice([0, 1, 2, 3, 4, 6, 8, 9])
    else:
        den = rng.choice([2, 3, 7, 8, 12, 40, 128, 1024, 99999])
    num = rng.choice([0, 1, 5, 99, 100, 12345, 97653109, 10 ** 12 + 1, rng.randrange(1, 10 ** rng.choice([2, 5, 9, 18]))])
    return dict(neg=rng.random() < 0.4, num=str(num), den=str(den))


def trunc(x, dec):
    q = int(x["num"]) * 10 ** dec // int(x["den"])
    return -q if x["neg"] else q


def rand_book(rng, big):
    coms = [dict(id="CAD", dec=rng.choice([2, 2, 2, -1]), note=rng.choice(["", "Canadian Dollar"]))]
    for c, decs in (("USD", [2, -1]), ("VXF", [3, 4]), ("JPY", [0]), ("BTC", [8, 9]), ("T5", [0, 5]), ("a_b", [1])):
        if rng.random() < 0.5:
            coms.append(dict(id=c, dec=rng.choice(decs), note=rng.choice(["", "Fund of %s; 5%%" % c])))
    dec = {c["id"]: 2 if c["dec"] < 0 else c["dec"] for c in coms}
    if rng.random() < 0.6:
        coms.append(dict(id="template", dec=0, note="template"))
    rng.shuffle(coms)
    ids = sorted(dec)
    accts = [dict(guid="%032x" % rng.getrandbits(128), name=rng.choice(["Root Account"] * 4 + ["Racine"]), type="ROOT", com=rng.choice(["", "CAD"]), parent="", note="", bank="", acctid="")]
    used = set()
    for _ in range(rng.choice([2, 4, 8, 14])):
        p = rng.choice(accts)
        n = rng.choice(NAMES)
        key = (p["guid"], n.replace(" ", ""))
        if key in used or (p["type"] == "ROOT" and n in ("Root", "Racine")):
            continue
        used.add(key)
        a = dict(guid="%032x" % rng.getrandbits(128), name=n, type=rng.choice(["BANK", "ASSET", "EXPENSE", "STOCK", "LIABILITY"]), com=rng.choice(["CAD", "CAD", rng.choice(ids)]), parent=p["guid"],
                 note=rng.choice(["", "", "An account; really", "My & note"]), bank="", acctid="")
        if rng.random() < 0.15:
            a["acctid"], a["bank"] = rng.choice(["123", "99887766554433"]), rng.choice(["", "55"])
        accts.append(a)
    live = accts[1:]
    years = rng.sample([1999, 2007, 2018, 2019, 2020, 2021], rng.choice([1, 2, 4]))
    days = ["%d-%02d-%02d" % (rng.choice(years), rng.choice([1, 2, 12, rng.randrange(1, 13)]), rng.choice([1, 28, 15, rng.randrange(1, 29)])) for _ in range(rng.choice([1, 3, 8]))] + \
           rng.choice([[], ["%d-12-31" % years[0], "%d-01-01" % (years[0] + 1)]])
    prices = []
    for _ in range(rng.choice([0, 0, 1, 4, 15])):
        if len(ids) > 1:
            c, q = rng.sample(ids, 2)
            prices.append(dict(com=c, cur=q, stamp=stamp(rng, days), **dict(rand_frac(rng, 2), neg=False)))
    txns = []
    for _ in range(rng.choice([0, 1, 3, 8, big])):
        t = dict(stamp=stamp(rng, days), code=rng.choice(["", "", "", "", "12", "c7", "007", "0", "A_1"]), desc=rng.choice(TEXTS + [""]), splits=[])
        mixed = rng.random() < 0.25
        pool = live if mixed else [a for a in live if a["com"] == rng.choice(live)["com"]]
        if not pool:
            continue
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a = rng.choice(pool)
            t["splits"].append(dict(acct=a["guid"], memo=rng.choice(["", "", "", "a memo", "memo; more", "a rather long memo that does not fit the line with the amount"]), **rand_frac(rng, dec[a["com"]])))
        if mixed and rng.random() < 0.7:
            pass
        elif rng.random() < 0.985:
            a = rng.choice(pool)
            same = [s for s in t["splits"]]
            coms_ = {next(x["com"] for x in accts if x["guid"] == s["acct"]) for s in same} | {a["com"]}
            if len(coms_) == 1:
                n = -sum(trunc(s, dec[a["com"]]) for s in same)
                t["splits"].append(dict(acct=a["guid"], memo="", neg=n < 0, num=str(abs(n)), den=str(10 ** dec[a["com"]])))
        if not t["splits"]:
            continue
        txns.append(t)
    rng.shuffle(accts)
    return dict(coms=coms, accts=accts, prices=prices, txns=txns)


def c22_case(chk, case, d, rng):
    observe(chk, case, d, rng, rand_book(rng, 40 if chk.thorough else 20))


def c22_enumerated(s):
    def go(chk, case, d, rng):
        observe(chk, case, d, None, s["book"], s["yearly"])
    return go


def c22_foreign(chk, case, d, rng):
    """A book without the commodity that coin takes for the default."""
    b = dict(coms=[dict(id="USD", dec=2, note="")], prices=[], txns=[],
             accts=[dict(guid="r", name="Root Account", type="ROOT", com="", parent="", note="", bank="", acctid=""),
                    dict(guid="a", name="Assets", type="ASSET", com="USD", parent="r", note="", bank="", acctid="")])
    x = book_xml(b)
    with gzip.open(os.path.join(d, "book.gnucash"), "wt") as f:
        f.write(x)
    case.replay["files"] = {"book.gnucash (uncompressed)": x}
    rc, out, err = run([chk.exe("gc2coin"), "-gnucashdb", os.path.join(d, "book.gnucash")], cwd=d, env={k: v for k, v in os.environ.items() if k != "COINDB"})
    if rc != 0:
        case.local.append(dict(what="conversion of a book without CAD", expected="succeeds", observed=err[:200], event=0))


MC = """SPECIFICATION MCSpec
CONSTANTS MaxTxns = %d
 LimbDigits = 4
 DefaultCom = "CAD"
INVARIANTS Ends NeverStuck NamesDistinct UnitsExact Closed%s
CHECK_DEADLOCK FALSE
"""


def c22(chk):
    chk.build("gc2coin", "coin")
    scn = emitted(chk.model("gnucash-scenarios", "MC_GnuCash", MC % (1, " Emitted"), workers=8, heap="6g"))
    if chk.thorough:
        chk.model("gnucash", "MC_GnuCash", MC % (2, ""), workers=8, heap="8g")
    chk.run_cases([("enumerated-%d" % i, c22_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 200, 1500)))] +
                  [("book-%d" % i, c22_case) for i in range(scale(chk, 400, 5000))] + [("foreign", c22_foreign)])
    chk.validate("Trace_GnuCash", constants='CONSTANTS LimbDigits = 4\n DefaultCom = "CAD"')
    return chk.finish("model_checking", "books enumerated by MC_GnuCash (sampled) and random ones, converted in several modes and loaded by coin; non-trivial when distinct",
                      ["accounts and commodities are named in the characters coin accepts (blanks apart), texts have one line, and the book has the commodity CAD",
                       "codes consist of letters and digits"])
