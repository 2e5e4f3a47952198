"""C13 (import rules), C14 (ofx2coin) and C15 (csv2coin)."""
import json, os, random, re
from core import run
from ledger import *
from p_ledger import emitted, sample, scale
from p_values import numeral

IMPORT_ASSUMPTIONS = [
    "The specification takes rules, statements and records as the generator intended them; that the programs read them so is part of what is checked.",
    "Regular expressions are drawn from literals, character sets with repetitions, groups, anchors and alternatives.",
    "TLC and the Go toolchain are trusted.",
]

# -- regular expressions as data (Rex.tla) ----------------------------------------------------------
DIGITS = "0123456789"
WORD = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz0123456789"


def atom(k, t="", neg=False, lo=1, hi=1, n=0):
    return dict(k=k, t=t, neg=neg, min=lo, max=hi, n=n)


def lit(t):
    return atom("lit", t)


def cls(t, neg=False, lo=1, hi=1):
    return atom("set", t, neg, lo, hi)


def rx(*alts, fold=False):
    g = max([a["n"] for alt in alts for a in alt] + [0])
    return dict(fold=fold, groups=g, alts=[list(a) for a in alts])


def esc(t):
    return re.sub(r"([.+*?()\[\]{}|^$\\])", r"\\\1", t)


def atom_text(a):
    k = a["k"]
    if k == "lit":
        return esc(a["t"])
    if k in ("bol", "eol"):
        return "^" if k == "bol" else "$"
    if k in ("open", "close"):
        return "(" if k == "open" else ")"
    t = a["t"]
    if t == "" and a["neg"]:
        s = "."
    elif t == DIGITS:
        s = r"\D" if a["neg"] else r"\d"
    elif t == WORD:
        s = r"\W" if a["neg"] else r"\w"
    elif t == " ":
        s = "[^ ]" if a["neg"] else "[ ]"
    else:
        s = "[" + ("^" if a["neg"] else "") + t.replace(DIGITS, r"\d").replace("]", r"\]").replace("^", r"\^") + "]"
    lo, hi = a["min"], a["max"]
    return s + {(1, 1): "", (0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((lo, hi), "{%d}" % lo if lo == hi else "{%d,%s}" % (lo, hi if hi >= 0 else ""))


def rx_text(r):
    return ("(?i)" if r["fold"] else "") + "|".join("".join(map(atom_text, a)) for a in r["alts"])


NO_RX = rx([])


def rand_seq(rng, words, anchors=True):
    seq = []
    w = rng.choice(words)
    k = rng.random()
    if k < 0.5 or len(w) < 3:
        seq.append(lit(w))
    elif k < 0.65:
        i = rng.randrange(1, len(w))
        seq += [lit(w[:i]), cls("", True, rng.choice([0, 1]), rng.choice([1, 3, -1])), lit(w[i:][-2:])]
    elif k < 0.8:
        seq += [lit(w[:2]), cls(rng.choice([DIGITS, WORD, " ", "AEIOU", "#" + DIGITS]), rng.random() < 0.2, rng.choice([0, 1, 2]), rng.choice([2, 3, -1]))]
    else:
        seq += [lit(w), cls(" ", False, 0, -1), cls(DIGITS, False, 1, -1)]
    if anchors and rng.random() < 0.2:
        seq.insert(0, atom("bol"))
    if anchors and rng.random() < 0.15:
        seq.append(atom("eol"))
    return seq


def rand_rx(rng, words):
    r = rx(*[rand_seq(rng, words) for _ in range(rng.choice([1, 1, 1, 2, 3]))], fold=rng.random() < 0.2)
    t = rx_text(r)
    return r if t.strip() == t and not t.startswith(";") else rx([lit("x")])


# -- the database -------------------------------------------------------------------------------------
COMS = [dict(id="CAD", sym="CD", dec=2), dict(id="USD", sym="UD", dec=2), dict(id="VXF", sym="Vx", dec=3), dict(id="BTC", sym="", dec=8), dict(id="JPY", sym="", dec=0)]


def acct_(name, com="", ofx=""):
    return dict(name=name, com=com, ofx=ofx)


class DB:
    def __init__(self, rng=None, accts=None, coms=None):
        self.coms = coms or COMS[:]
        if rng and not coms and rng.random() < 0.4:  # the symbol of one can be the id of another
            i, sym = rng.choice([(2, "BTC"), (3, "VXF"), (4, "USD"), (1, "CAD"), (0, "USD"), (3, "V.TO")])
            self.coms = [dict(c, sym=sym) if j == i else c for j, c in enumerate(self.coms)]
        self.accts = accts
        if accts is None:
            names = ["Assets:Bank", "Assets:Bank:Checking", "Assets:Bank:Savings", "Liabilities:Card", "Expenses", "Expenses:Food", "Expenses:Auto", "Expenses:Auto:Gas",
                     "Income:Salary", "Income:Interest", "Assets:Inv", "Assets:Inv:Cash", "Assets:Inv:VXF", "Liabilities:Bank", "Liabilities:Savings"]
            self.accts = []
            for n in names:
                if rng.random() < 0.92:
                    com = {"Assets:Inv:VXF": "VXF", "Assets:Inv:Cash": rng.choice(["USD", "CAD"])}.get(n, "")
                    if rng.random() < 0.12:
                        com = rng.choice(self.coms)["id"]
                    self.accts.append(acct_(n, com))
            for p in sorted({n.rsplit(":", k)[0] for n in [a["name"] for a in self.accts] for k in range(1, n.count(":") + 1)}):
                if p not in [a["name"] for a in self.accts]:
                    self.accts.append(acct_(p))
            rng.shuffle(self.accts)
        self.names = [a["name"] for a in self.accts]
        self.ids = {}

    def dec(self, com):
        return next(c["dec"] for c in self.coms if c["id"] == com)

    def com(self, name):
        for a in self.accts:
            if a["name"] == name:
                return a["com"] or self.coms[0]["id"]
        return self.coms[0]["id"]

    def write(self, d, case):
        with open(os.path.join(d, "commodities.coin"), "w") as f:
            for i, c in enumerate(self.coms):
                f.write("commodity %s\n  format 1%s %s\n%s%s\n" % (c["id"], "." + "0" * c["dec"] if c["dec"] else "", c["id"],
                                                                 "  default\n" if i == 0 else "", "  symbol %s\n" % c["sym"] if c["sym"] else ""))
        more = random.Random(repr(self.accts))
        with open(os.path.join(d, "accounts.coin"), "w") as f:
            for a in self.accts:
                at = ["  commodity %s\n" % a["com"] if a["com"] else "", "  ofx_acctid %s\n" % a["ofx"] if a["ofx"] else ""]
                if more.random() < (0.6 if a["ofx"] else 0.3):                  # what imports do not look at
                    at += more.sample(["  note old one\n", "  closed %s\n" % more.choice(["2001/01/01", "2020/03/01", "2099/12/31"]), "  ofx_bankid %d\n" % more.randrange(99),
                                       "  csv_acctid 77x\n"], more.choice([1, 2]))
                    more.shuffle(at)
                f.write("account %s\n%s\n" % (a["name"], "".join(at)))
        case.add("setup", accts=self.accts, coms=self.coms)


# -- rules -------------------------------------------------------------------------------------------
WORDS = ["COSTCO", "SHELL", "Acme", "PAY", "Coffee", "shop", "#42", "Interest", "TRANSFER", "GAS", "x", "a.b", "FEE (NSF)", "no 7"]


def rand_desc(rng):
    ws = [rng.choice(WORDS + ["COSTCO GAS", "shell", "acme", "7", "12", "-", "&", "the"]) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    t = " ".join(ws)
    if rng.random() < 0.15:
        t = t.lower()
    return t if not t.startswith("(") else "x" + t


def rand_rules(rng, db, ids):
    """Lines of a rules file; the accounts' ids are among ids."""
    lines, groups = [], []

    def body(n, refs):
        for i in range(n + 1):
            # notes belong to the rule before them; those after a reference or at the start to none
            while i > 0 and rng.random() < 0.25 or i == 0 and rng.random() < 0.03:
                lines.append(dict(k="note", t=rng.choice(["tag: #x", "some note", "n 1; n 2", "a  b", "#fuel: 7, more", "*"])))
            if i == n:
                break
            k = rng.random()
            if refs and k < 0.25:
                lines.append(dict(k="ref", name=rng.choice(refs)))
            else:
                drop, any_ = rng.random() < 0.12, rng.random() < 0.08
                a = rng.choice(db.names)
                if rng.random() < 0.15:
                    a = unique_abbrev(rng, a, closure(db.names))
                r = dict(k="rule", drop=drop, acct="--" if drop else a, any=any_, rex=NO_RX if any_ else rand_rx(rng, WORDS))
                lines.append(r)

    for g in range(rng.choice([0, 1, 1, 2, 3])):
        name = "g%d" % g
        lines.append(dict(k="group", name=name))
        body(rng.choice([0, 1, 2, 4]), list(groups))
        groups.append(name)
    secs = list(ids)
    rng.shuffle(secs)
    for i in secs:
        lines.append(dict(k="acct", name=i, acct=rng.choice([n for n in db.names if n.startswith("Assets") or n.startswith("Liab")] or db.names)))
        body(rng.choice([0, 1, 2, 3, 6] * 4 + [9, 14]), groups)
    return lines


def rules_text(lines, rng=None):
    out = []
    for i, x in enumerate(lines):
        ind = rng.choice(["  ", " ", "\t", "    "]) if rng else "  "
        gap = rng.choice([" ", "  ", "     ", "\t"]) if rng else " "
        if x["k"] in ("group", "acct") and rng and rng.random() < 0.3:
            out.append("")
        if x["k"] == "group":
            out.append(x["name"])
        elif x["k"] == "acct":
            out.append(x["name"] + gap + x["acct"])
        elif x["k"] == "ref":
            out.append(ind + "@" + x["name"])
        elif x["k"] == "note":
            out.append(ind + "; " + x["t"])
        else:
            out.append(ind + x["acct"] + ("" if x["any"] else gap + rx_text(x["rex"])) + (rng.choice(["", "", " "]) if rng else ""))
    return "\n".join(out) + "\n"


def read_rules(text, known):
    """Reads a dumped rules file; known maps the text of expressions to what they stand for."""
    lines, ok = [], True
    for t in text.splitlines():
        if not t.strip():
            continue
        m = re.fullmatch(r"(\w+)(\s+(\S+))?\s*", t)
        if m:
            lines.append(dict(k="acct", name=m[1], acct=m[3]) if m[3] else dict(k="group", name=m[1]))
            continue
        m = re.fullmatch(r"\s+@(\w+)\s*", t)
        if m:
            lines.append(dict(k="ref", name=m[1]))
            continue
        m = re.fullmatch(r"\s+;\s+(.*)", t)
        if m:
            lines.append(dict(k="note", t=m[1]))
            continue
        m = re.fullmatch(r"\s+(\S+)(\s+(\S.*\S|\S))?\s*", t)
        if m:
            e = m[3] or ""
            lines.append(dict(k="rule", drop=m[1] == "--", acct=m[1], any=not e, rex=known.get(e, rx([lit("? " + e)]))))
            continue
        ok = False
    # a reader of lines starts with a section
    return ok and (not lines or lines[0]["k"] in ("group", "acct")), lines


# -- output -----------------------------------------------------------------------------------------
POST = re.compile(r"\s+(\S+)\s+(-?[\d.]+ \w+)(?: = (-?[\d.]+ \w+))?")


def read_txns(text):
    """Printed transactions: the first line and notes, and the postings."""
    out = []
    for block in re.split(r"\n\s*\n", text):
        ls = [x for x in block.split("\n") if x.strip()]
        if not ls:
            continue
        o = dict(head=[re.sub(r"^(\S+) +; ", r"\1 ; ", ls[0].rstrip())], posts=[])
        for x in ls[1:]:
            m = POST.fullmatch(x)
            if m:
                o["posts"].append(dict(acct=m[1], amount=m[2], balance=m[3] or ""))
            elif re.match(r"\s+; ", x) and not o["posts"]:
                o["head"].append(re.sub(r"^\s+; ", "", x))
            else:
                o["head"].append("?" + x)
        out.append(o)
    return out


def read_dropped(err):
    out = []
    for block in err.split("DROPPING DUPLICATE TRANSACTION:\n")[1:]:
        ls = block.split("\n")
        if re.search(r":\d+$", ls[0]):
            ls = ls[1:]
        out += read_txns("\n".join(ls))
    return out


# -- OFX --------------------------------------------------------------------------------------------
def sgml(tag, *body):
    return "<%s>\n%s</%s>\n" % (tag, "".join(body), tag)


def leaf(tag, v, close):
    v = v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return "<%s>%s%s\n" % (tag, v, "</%s>" % tag if close else "")


def ofx_text(stmts, style):
    """style: xml, close (leaves have end tags), bmo ('', 'msgset', 'blank', 'both'), blanks, lastnl"""
    c = style["close"] or style["xml"]

    def tx(t):
        return sgml("STMTTRN", leaf("TRNTYPE", "DEBIT", c), leaf("DTPOSTED", t["date"], c), leaf("TRNAMT", t["amount"], c), leaf("FITID", t.get("fitid", "1"), c),
                    leaf("NAME", t["name"], c) if t["name"] else "", leaf("MEMO", t["memo"], c) if t["memo"] else "")
    status = sgml("STATUS", leaf("CODE", "0", c), leaf("SEVERITY", "INFO", c))

    def st(s):
        p = "CC" if s["kind"] == "card" else ""
        lst = sgml("BANKTRANLIST", leaf("DTSTART", "20190101", c), leaf("DTEND", "20190301", c), *map(tx, s["txs"])) if s["list"] else ""
        frm = sgml("CCACCTFROM", leaf("ACCTID", s["acct"], c)) if p else sgml("BANKACCTFROM", leaf("BANKID", "9", c), leaf("ACCTID", s["acct"], c), leaf("ACCTTYPE", "CHECKING", c))
        return sgml(p + "STMTTRNRS", leaf("TRNUID", "1", c), status,
                    sgml(p + "STMTRS", leaf("CURDEF", "CAD", c), frm, lst, sgml("LEDGERBAL", leaf("BALAMT", s["bal"], c), leaf("DTASOF", "20190127", c))))
    if style["xml"]:
        head = '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n<?OFX OFXHEADER="200" VERSION="211" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>\n'
    else:
        head = "OFXHEADER:100\nDATA:OFXSGML\nVERSION:102\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n"
        if style["bmo"] not in ("blank", "both"):
            head += "\n"
    junk = style["bmo"] in ("msgset", "both")
    body = sgml("SIGNONMSGSRSV1", sgml("SONRS", status, leaf("DTSERVER", "20190127181602", c), leaf("LANGUAGE", "ENG", c)))
    runs = []
    for s in stmts:         # message sets in the order of the statements, one per kind
        if s["kind"] not in runs:
            runs.append(s["kind"])
    for kind in runs:
        if junk:
            body += style["junk"][0] + "\n"
        body += sgml("CREDITCARDMSGSRSV1" if kind == "card" else "BANKMSGSRSV1", *[st(s) for s in stmts if s["kind"] == kind])
        if junk:
            body += style["junk"][1] + "\n"
    t = head + sgml("OFX", body)
    if style["blanks"]:
        t = t.replace("</STMTTRN>\n", "</STMTTRN>\n\n")
    if style["lead"] and style["bmo"]:
        t = "\n\n" + t
    return t if style["lastnl"] else t[:-1]


def rand_style(rng, bmo):
    return dict(xml=not bmo and rng.random() < 0.25, close=rng.random() < 0.3, bmo=rng.choice(["", "msgset", "blank", "both"]) if bmo else "", blanks=rng.random() < 0.3,
                lead=rng.random() < 0.3, lastnl=rng.random() < 0.8,
                junk=rng.choice([("<BANKMSGSET><BANKMSGSETV1>", "<BANKMSGSETV1><BANKMSGSET>"), ("<BANKMSGSETV1><BANKMSGSET>", "<BANKMSGSET><BANKMSGSETV1>")]))


def rand_ofx_date(rng, span=5):
    d = "201901%02d" % rng.randrange(3, 3 + span) if rng.random() < 0.9 else rng.choice(["20181231", "20190201", "20200229"])
    k = rng.random()
    if k < 0.4:
        return d
    t = rng.choice(["000000", "235959", "120000", "003000", "1830", "04"])
    if len(t) == 6 and rng.random() < 0.5:
        t += ".000"
    z = rng.choice(["", "", "[-5:EST]", "[+9:JST]", "[0:GMT]", "[-3.50:NST]", "[12]", "[-11]"])
    return d + t + z


def rand_ofx_amount(rng, few):
    if rng.random() < 0.7:
        return rng.choice(few)
    t = numeral(rng, proper=True, fits=1.0)
    if sum(c.isdigit() for c in t.partition(".")[0]) > 10:
        t = "12.34"
    k = rng.random()
    if k < 0.15:
        t = t.replace(".", ",")
    elif k < 0.25 and not t.startswith("-"):
        t = "+" + t
    return t


def rand_stmts(rng, ids, unknown=False):
    few = [rng.choice(["-1", "1", "-10.00", "10.00", "10", "-0.01", "5.5", "-5.55", "5.559", "0", "-0.00"]) for _ in range(rng.choice([1, 2, 4]))]
    names = [rand_desc(rng) for _ in range(rng.choice([1, 2, 4]))]
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        txs = []
        for _ in range(rng.choice([0, 1, 2, 3, 6, 10])):
            if txs and rng.random() < 0.15:
                txs.append(dict(txs[-1]))
                continue
            name, memo = rng.choice(names), ""
            if rng.random() < 0.35:
                memo = rng.choice([" memo", "/x", "  two   words ", rand_desc(rng)])
            if rng.random() < 0.07:
                name = ""
            if rng.random() < 0.1:
                name = "  ".join(name.split(" "))
            txs.append(dict(date=rand_ofx_date(rng), amount=rand_ofx_amount(rng, few), name=name, memo=memo))
        lst = bool(txs) or rng.random() < 0.5
        if lst and not txs and rng.random() < 0.5:
            lst = False
        out.append(dict(kind=rng.choice(["bank", "bank", "card"]), acct=rng.choice(ids), list=lst, txs=txs, bal=rand_ofx_amount(rng, few + ["77.5", "-3"])))
    return out


def adopt_events(case, out, db):
    def split(a):
        t, c = a.split(" ")
        return t, c
    case.add("adopt", txns=[dict(date=int(o["head"][0][:10].replace("/", "")), code="", posts=[dict(acct=p["acct"], com=split(p["amount"])[1], amount=split(p["amount"])[0]) for p in o["posts"]])
                            for o in out])


def ofx_run(chk, case, d, name, stmts, style, keep, bmo, files=None):
    """Imports one or several files and records what came of it."""
    paths = []
    for i, (s, st) in enumerate(zip(stmts, style)):
        p = os.path.join(d, "%s%d.ofx" % (name, i))
        open(p, "w").write(ofx_text(s, st))
        paths.append(p)
    args = (["-keep-dupes"] if keep else []) + (["-bmo"] if bmo else []) + paths
    rc, out, err = coin(chk, os.path.join(d, "db"), args, exe="ofx2coin")
    got = read_txns(out) if rc == 0 else []
    case.add("ofx", files=stmts, keepdupes=keep, ok=rc == 0, out=got, dropped=read_dropped(err) if rc == 0 else [], args=" ".join(os.path.basename(a) for a in args), stderr=err[-600:] if rc else "")
    case.replay.setdefault("files", {}).update({os.path.basename(p): open(p).read() for p in paths})
    return rc, out, got


def ledger_for(rng, db, stmts, rules, ids):
    """Transactions that are in the ledger already, several of them like ones to be imported."""
    txns = []
    targets = sorted({x["acct"] for x in rules if x["k"] == "rule" and x["acct"] in db.names}) or db.names
    flat = [(s, t) for s in stmts for t in s["txs"]]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        if flat and rng.random() < 0.85:
            s, t = rng.choice(flat)
            frm = next((x["acct"] for x in rules if x["k"] == "acct" and x["name"] == s["acct"]), None) or next((a["name"] for a in db.accts if a["ofx"] == s["acct"]), None)
            if frm is None or frm not in db.names:
                continue
            to = rng.choice(["Unbalanced", "Unbalanced", rng.choice(targets)])
            date, amount = t["date"][:8], t["amount"].replace(",", ".").lstrip("+")
        else:
            frm, to = rng.choice(db.names), rng.choice(db.names)
            date, amount = "20190105", "10.00"
        com = db.com(frm)
        if to == frm or (com != db.com(to) and rng.random() < 0.97):
            continue
        dec = db.dec(com)
        neg = amount.startswith("-")
        w, _, f = amount.lstrip("-").partition(".")
        n = int((w or "0") + (f + "0" * dec)[:dec])
        neg = neg and n != 0
        ps = [dict(acct=frm, com=com, amount=amt(-n if neg else n, dec)), dict(acct=to, com=com, amount=amt(n if neg else -n, dec))]
        if neg or rng.random() < 0.1:
            ps.reverse()
        k = rng.random()
        if k < 0.08:
            date = "%d" % (int(date) + 1) if date[-2:] < "27" else date
        code = rng.choice(["77", "c"]) if rng.random() < 0.1 else ""
        if k > 0.95:
            ps.append(dict(acct=to, com=com, amount=amt(0, dec)))
        txns.append(dict(date=int(date), code=code, posts=ps))
    rng.shuffle(txns)
    if txns and rng.random() < 0.08:
        # a day with many others
        t = rng.choice(txns)
        a, b = t["posts"][0], t["posts"][1]
        dec = db.dec(a["com"])
        for i in range(rng.choice([7, 17, 33])):
            txns.insert(0 if rng.random() < 0.8 else len(txns), dict(date=t["date"], code="", posts=[dict(a, amount=amt(700001 + i, dec)), dict(b, amount=amt(-700001 - i, dec))]))
    return txns


def write_ledger(path, txns):
    with open(path, "w") as f:
        for t in txns:
            s = "%08d" % t["date"]
            f.write("%s/%s/%s %sold\n" % (s[:4], s[4:6], s[6:], "(%s) " % t["code"] if t["code"] else ""))
            for p in t["posts"]:
                f.write("  %s  %s %s\n" % (p["acct"], p["amount"], p["com"]))
            f.write("\n")


def import_case(rng, with_rules=True):
    db = DB(rng)
    ids = rng.sample(["123", "0042", "7", "99887766554433"], rng.choice([1, 2, 2, 3]))
    own = []
    for i in ids[:]:
        if rng.random() < 0.2:
            a = rng.choice(db.accts)
            if not a["ofx"]:
                a["ofx"] = i
                own.append(i)
                if rng.random() < 0.3 and not own[1:]:      # more than one account has it
                    b = rng.choice(db.accts)
                    b["ofx"] = b["ofx"] or i
    rules = rand_rules(rng, db, [i for i in ids if i not in own or rng.random() < 0.3]) if with_rules else []
    return db, ids, rules


def begin_db(case, d, db, rules, rng, name="ofx.rules", source=""):
    os.makedirs(os.path.join(d, "db"), exist_ok=True)
    db.write(os.path.join(d, "db"), case)
    if rules or source:
        open(os.path.join(d, "db", name), "w").write(source + rules_text(rules, rng))
    case.add("rules", lines=rules)
    case.replay["files"] = {n: open(os.path.join(d, "db", n)).read() for n in sorted(os.listdir(os.path.join(d, "db")))}


# -- C13 --------------------------------------------------------------------------------------------
def describe(chk, case, d, descs, ids, tag):
    """Imports one transaction for each description and id: shows what the rules decide."""
    stmts = [[dict(kind="card" if k % 2 else "bank", acct=i, list=True,
                   txs=[dict(date="20190105", amount="-%d" % (n + 1), name=t, memo="") for n, t in enumerate(descs)], bal="1")] for k, i in enumerate(ids)]
    st = [dict(xml=False, close=False, bmo="", blanks=False, lead=False, lastnl=True, junk=("", "")) for _ in stmts]
    ofx_run(chk, case, d, tag, stmts, st, True, False)


def dump(chk, case, d, rules, exe="ofx2coin"):
    rc, out, err = coin(chk, os.path.join(d, "db"), ["-rules"], exe=exe)
    known = {rx_text(x["rex"]): x["rex"] for x in rules if x["k"] == "rule"}
    text = out
    if exe == "csv2coin":       # the sources come first
        text = out.split("---\n", 1)[-1] if "---\n" in out else "?"
    ok, lines = read_rules(text, known)
    case.add("dump", ok=rc == 0 and ok, lines=lines)
    return rc, out


def c13_observe(chk, case, d, rng, db, rules, ids, descs):
    begin_db(case, d, db, rules, rng)
    describe(chk, case, d, descs, ids, "first")
    if not rules:
        return
    rc, out = dump(chk, case, d, rules)
    if rc == 0:
        # the dump decides in the same way, and dumps the same again
        open(os.path.join(d, "db", "ofx.rules"), "w").write(out)
        describe(chk, case, d, descs, ids, "again")
        rc2, out2, err2 = coin(chk, os.path.join(d, "db"), ["-rules"], exe="ofx2coin")
        if (rc2, out2) != (0, out):
            case.local.append(dict(what="dump of a dump", expected=out, observed=out2, event=len(case.events)))


def c13_case(chk, case, d, rng):
    db, ids, rules = import_case(rng, rng.random() < 0.97)
    known = [i for i in ids if any(x["k"] == "acct" and x["name"] == i for x in rules) or any(a["ofx"] == i for a in db.accts)]
    if not known:
        known = ids[:1]
    c13_observe(chk, case, d, rng, db, rules, known, [rand_desc(rng) for _ in range(rng.choice([3, 8, 15]))])


MC_RULES_DB = [acct_("P"), acct_("Q"), acct_("S"), acct_("T")]


def mc_rx(name):
    return {"a": rx([lit("a")]), "b": rx([lit("b")]), "ab": rx([lit("a")], [lit("b")]), "": NO_RX}[name]


def c13_enumerated(s):
    def go(chk, case, d, rng):
        db = DB(accts=[dict(a) for a in MC_RULES_DB], coms=COMS[:1])
        rules = []
        for x in s["lines"]:
            x = dict(x)
            if x["k"] == "rule" and x["drop"]:
                x["acct"] = "--"
            rules.append(x)
        ids = [x["name"] for x in rules if x["k"] == "acct"]
        c13_observe(chk, case, d, None, db, rules, ids, ["a", "b", "c", "ba"]) if ids else None
    return go


def c13(chk):
    chk.build("ofx2coin", "csv2coin")
    scn = emitted(chk.model("rules", "MC_Rules", MC_RULES % scale(chk, 5, 6), workers=8, heap="6g"))
    chk.run_cases([("enumerated-%d" % i, c13_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 300, 4000)))] +
                  [("rules-%d" % i, c13_case) for i in range(scale(chk, 250, 3000))] +
                  [("csv-rules-%d" % i, c13_csv) for i in range(scale(chk, 100, 1000))])
    chk.validate("Trace_Imports", constants="CONSTANT LimbDigits = 4")
    return chk.finish("model_checking", "rules files enumerated by MC_Rules (sampled) and random ones, each deciding a set of descriptions for all of its accounts, before and after being dumped; non-trivial when distinct",
                      IMPORT_ASSUMPTIONS)


MC_RULES = """SPECIFICATION MCSpec
CONSTANTS MaxLines = %d
 EmitAt = 5
INVARIANTS Recursive DumpSame Emitted
PROPERTY Local
CHECK_DEADLOCK FALSE
"""


def c13_csv(chk, case, d, rng):
    """The same rules through csv2coin."""
    db, ids, rules = import_case(rng)
    known = [i for i in ids if any(x["k"] == "acct" and x["name"] == i for x in rules)]
    if not known:
        return
    begin_db(case, d, db, rules, rng, name="csv.rules", source="---\n")
    rows = [[rng.choice(known), rand_desc(rng), "2019/01/05", "%d" % (n + 1)] for n in range(rng.choice([3, 8, 15]))]
    for again in (False, True):
        csv_run(chk, case, d, "again" if again else "first", [], 0, [rows], cols=[0, 1, 2, 3])
        if not again:
            rc, out = dump(chk, case, d, rules, exe="csv2coin")
            if rc != 0:
                return
            open(os.path.join(d, "db", "csv.rules"), "w").write(out)


# -- C14 --------------------------------------------------------------------------------------------
PLAIN = dict(xml=False, close=False, bmo="", blanks=False, lead=False, lastnl=True, junk=("", ""))


def c14_observe(chk, case, d, rng, db, rules, ids, files, ledger):
    begin_db(case, d, db, rules, rng)
    write_ledger(os.path.join(d, "db", "old.coin"), ledger)
    case.replay["files"]["old.coin"] = open(os.path.join(d, "db", "old.coin")).read()
    case.add("ledger", txns=ledger)
    bmo = bool(rng) and rng.random() < 0.4
    styles = [rand_style(rng, bmo) if rng else PLAIN for _ in files]
    keep = bool(rng) and rng.random() < 0.25
    rc, out, got = ofx_run(chk, case, d, "a", files, styles, keep, bmo)
    if rc != 0 or (rng and rng.random() < 0.3):
        return
    # the import becomes part of the ledger, and is imported again with some more
    # (less what would put another commodity into an account, mostly: such a ledger does not load)
    blocks = [b for b in re.split(r"\n\s*\n", out) if b.strip()]
    pick = [(b, o) for b, o in zip(blocks, got) if all(p["amount"].split(" ")[1] == db.com(p["acct"]) for p in o["posts"])] if rng is None or rng.random() < 0.95 else list(zip(blocks, got))
    with open(os.path.join(d, "db", "new.coin"), "w") as f:
        f.write("\n\n".join(b for b, o in pick) + "\n")
    adopt_events(case, [o for b, o in pick], db)
    if rng:
        more = rand_stmts(rng, ids)
        files2 = rng.choice([files, files + [more], [more] + files[:1], [files[0] + more]])
    else:
        files2 = files
    ofx_run(chk, case, d, "b", files2, [rand_style(rng, bmo) if rng else PLAIN for _ in files2], False, bmo)


def c14_case(chk, case, d, rng):
    db, ids, rules = import_case(rng, rng.random() < 0.9)
    known = [i for i in ids if any(x["k"] == "acct" and x["name"] == i for x in rules) or any(a["ofx"] == i for a in db.accts)]
    if not known or rng.random() < 0.03:
        known = ids
    files = [rand_stmts(rng, known) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3 and len(files) > 1:
        # overlapping statements
        files[1] = files[1] + [dict(rng.choice(files[0]))]
        s = files[1][-1]
        k = rng.randrange(len(s["txs"]) + 1)
        s["txs"] = s["txs"][:k] + s["txs"][k:][::rng.choice([1, 2])]
        s["list"] = s["list"] or bool(s["txs"])
    ledger = ledger_for(rng, db, [s for f in files for s in f], rules, known)
    c14_observe(chk, case, d, rng, db, rules, known, files, ledger)


def c14_enumerated(s):
    def go(chk, case, d, rng):
        db = DB(accts=[acct_("F"), acct_("G")], coms=COMS[:1])
        rules = [dict(k="acct", name="1", acct="F"), dict(k="rule", drop=False, acct="G", any=False, rex=rx([lit("g")]))]
        c14_observe(chk, case, d, None, db, rules, ["1"], s["files"], s["ledger"])
    return go


def c14(chk):
    chk.build("ofx2coin")
    scn = emitted(chk.model("ofx", "MC_Ofx", MC_OFX % scale(chk, 3, 4), workers=8, heap="6g"))
    chk.run_cases([("enumerated-%d" % i, c14_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 400, 5000)))] +
                  [("statements-%d" % i, c14_case) for i in range(scale(chk, 500, 5000))])
    chk.validate("Trace_Imports", constants="CONSTANT LimbDigits = 4")
    return chk.finish("model_checking", "statements enumerated by MC_Ofx (sampled) and random ones with overlaps, repetitions and transactions already in the ledger, imported, added to the ledger and imported again; non-trivial when distinct",
                      IMPORT_ASSUMPTIONS)


MC_OFX = """SPECIFICATION MCSpec
CONSTANTS MaxTxs = %d
 LimbDigits = 4
INVARIANTS NothingLost NoRepeats Again BalanceKept Sorted SumZero Emitted
CHECK_DEADLOCK FALSE
"""


# -- C15 --------------------------------------------------------------------------------------------
def t_lit(t):
    return dict(k="lit", t=t, n=0)


def t_grp(n):
    return dict(k="grp", t="", n=n)


def t_fld(t):
    return dict(k="fld", t=t, n=0)


def tmpl_text(parts):
    return "".join(p["t"] if p["k"] == "lit" else "$%d" % p["n"] if p["k"] == "grp" else "${%s}" % p["t"] for p in parts)


def f_col(name, col):
    return dict(name=name, k="col", col=col, tmpl=[], rex=NO_RX, cond=[])


def f_ext(name, col, tmpl, rex):
    return dict(name=name, k="ext", col=col, tmpl=tmpl, rex=rex, cond=[])


def f_der(name, tmpl, *cond):
    return dict(name=name, k="der", col=0, tmpl=tmpl, rex=NO_RX, cond=[dict(field=c[0], rex=c[1]) for c in cond])


def source_text(name, skip, defs, rng=None):
    out = "%s %d\n" % (name, skip)
    for f in defs:
        ind = rng.choice(["  ", " ", "\t", "     "]) if rng else "  "
        gap = rng.choice([" ", "  ", "\t"]) if rng else " "
        if f["k"] == "col":
            out += ind + f["name"] + gap + str(f["col"])
        elif f["k"] == "ext":
            out += ind + f["name"] + gap + str(f["col"]) + gap + '"%s"' % tmpl_text(f["tmpl"]) + gap + rx_text(f["rex"])
        else:
            out += ind + f["name"] + gap + '"%s"' % tmpl_text(f["tmpl"]) + (gap + f["cond"][0]["field"] + gap + rx_text(f["cond"][0]["rex"]) if f["cond"] else "")
        out += "\n"
    return out


def csv_text(rows, rng=None):
    nl = "\r\n" if rng and rng.random() < 0.2 else "\n"
    def q(c):
        if '"' in c or "," in c or "\n" in c or (rng and rng.random() < 0.15) or c.startswith(" ") and rng and rng.random() < 0.5:
            return '"%s"' % c.replace('"', '""')
        return c
    lines = [",".join(q(c) for c in r) for r in rows]
    # a line without any character would be no record at all
    lines = [x if x else '""' for x in lines]
    t = nl.join(lines) + nl
    if rng and rng.random() < 0.15:
        t = t[:-len(nl)]
    return t


def csv_run(chk, case, d, tag, defs, skip, files, cols=None, rng=None, source="src"):
    paths = []
    for i, rows in enumerate(files):
        p = os.path.join(d, "%s%d.csv" % (tag, i))
        open(p, "w", newline="").write(csv_text(rows, rng))
        paths.append(p)
    args = (["-fields", ",".join(map(str, cols))] if cols else ["-source", source]) + paths
    rc, out, err = coin(chk, os.path.join(d, "db"), args, exe="csv2coin")
    case.add("csv", defs=defs, skip=skip, files=files, cols=cols or [], ok=rc == 0, out=read_txns(out) if rc == 0 else [], args=" ".join(os.path.basename(a) for a in args), stderr=err[-400:] if rc else "")
    case.replay.setdefault("files", {}).update({os.path.basename(p): open(p).read() for p in paths})
    return rc, out


NUMBER = [atom("open", n=1), cls(DIGITS + ".-", False, 1, -1), atom("close", n=1)]


class Table:
    """A random source with a way to make up records for it."""

    def __init__(self, rng, db, ids):
        self.rng, self.db, self.ids = rng, db, ids
        self.defs, self.makers = [], []
        r = rng

        def column(maker):
            self.makers.append(maker)
            return len(self.makers) - 1
        # account
        if r.random() < 0.3:
            self.defs.append(f_der("account", [t_lit(r.choice(ids))]))
        else:
            c = column(lambda: r.choice(ids))
            self.defs.append(f_col("account", c) if r.random() < 0.7 else f_ext("account", c, [t_grp(0)], rx([cls(WORD, False, 1, -1)])))
        # date
        k = r.random()

        def date():
            return r.choice(["2019/01/%02d" % r.randrange(1, 6)] * 6 + ["2018/12/31", "2020/02/29", "2019/02/28"])
        if k < 0.5:
            self.defs.append(f_col("date", column(date)))
        elif k < 0.75:
            o, c = (lambda n: atom("open", n=n)), (lambda n: atom("close", n=n))
            self.defs.append(f_ext("date", column(lambda: date().replace("/", "-")), [t_grp(1), t_lit("/"), t_grp(2), t_lit("/"), t_grp(3)],
                                   rx([o(1), cls(DIGITS, False, 4, 4), c(1), lit("-"), o(2), cls(DIGITS, False, 2, 2), c(2), lit("-"), o(3), cls(DIGITS, False, 2, 2), c(3)])))
        else:
            o, c = (lambda n: atom("open", n=n)), (lambda n: atom("close", n=n))
            self.defs.append(f_ext("date", column(lambda: "%s.%s.%s" % tuple(reversed(date().split("/")))), [t_grp(3), t_lit("/"), t_grp(2), t_lit("/"), t_grp(1)],
                                   rx([atom("bol"), o(1), cls(DIGITS, False, 1, 2), c(1), lit("."), o(2), cls(DIGITS, False, 1, 2), c(2), lit("."), o(3), cls(DIGITS, False, 4, 4), c(3), atom("eol")])))
        # description
        act = column(lambda: r.choice(["Buy", "Sell", "Dividend", "Interest", rand_desc(r), rand_desc(r), " two   spaces "]))
        self.act = act
        k = r.random()
        if k < 0.5:
            self.defs.append(f_col("description", act))
        else:
            what = column(lambda: r.choice(["ISHARES", "shop, inc", 'the "x"', "", "a  b"]))
            self.defs += [f_col("activity", act), f_col("what", what)]
            if k < 0.8:
                self.defs.append(f_der("description", [t_fld("activity"), t_lit(" of "), t_fld("what")]))
            else:
                self.defs += [f_der("description", [t_lit("short "), t_fld("activity")], ("activity", rx([lit("Buy")], [lit("Sell")]))), f_col("description", what), f_der("description", [t_lit("none")])]
        # amount
        few = [r.choice(["5.00", "-5.00", "12.345", "-0.1", "7", "0.00", "1000000.01", "-3"]) for _ in range(3)]

        def number(p=0.9):
            t = r.choice(few) if r.random() < 0.7 else numeral(r, proper=True, fits=1.0)
            if sum(c.isdigit() for c in t) > 17:
                t = "8.5"
            return t if r.random() < p else ""
        k = r.random()
        if k < 0.4:
            self.defs.append(f_col("amount", column(number if r.random() < 0.8 else lambda: number(0.97))))
        elif k < 0.6:
            deb, cre = column(lambda: number(0.5).lstrip("-")), column(lambda: number(0.7).lstrip("-"))
            self.defs += [f_ext("amount", deb, [t_lit("-"), t_grp(1)], rx([atom("open", n=1), cls("", True, 1, -1), atom("close", n=1)])), f_col("amount", cre)]
        elif k < 0.8:
            a, t = column(lambda: number(0.6)), column(lambda: r.choice(["", "blah VALUE =  %s" % number().lstrip("-"), "VALUE = %s; VALUE = 3" % number(), "nothing"]))
            self.defs += [f_col("amount", a), f_ext("amount", t, [t_lit(r.choice(["", "-"])), t_grp(1)], rx([lit("VALUE = "), cls(" ", False, 0, -1)] + NUMBER)),
                          f_der("amount", [t_lit("9.99")])]
        else:
            a = column(lambda: r.choice(["CAD %s", "%s", "$%s (x)"]) % number())
            self.defs.append(f_ext("amount", a, [t_grp(1)], rx([atom("open", n=1), cls("-", False, 0, 1), cls(DIGITS, False, 1, -1), cls(".", False, 0, 1), cls(DIGITS, False, 0, -1), atom("close", n=1)])))
        coms = [c["id"] for c in db.coms] + [c["sym"] for c in db.coms if c["sym"]]
        k = r.random()
        if k < 0.3:
            self.defs.append(f_col("currency", column(lambda: r.choice(["", "CAD", "USD", r.choice(coms)]))))
        elif k < 0.45:
            self.defs.append(f_der("currency", [t_lit(r.choice(["CAD", "USD", "CD"]))]))
        elif k < 0.55:
            self.defs += [f_ext("currency", act, [t_lit("USD")], rx([lit("Div")], [lit("Int")])), f_der("currency", [t_lit("CAD")])]
        k = r.random()
        if k < 0.6:
            sym = column(lambda: r.choice(["VXF", "VXF", "BTC", "USD", "CAD", "", r.choice(coms)]))
            qua = column(lambda: number(0.85))
            if k < 0.25:
                self.defs += [f_col("symbol", sym), f_col("quantity", qua)]
            else:
                self.defs += [f_col("s_ref", sym), f_col("q_ref", qua)]
                if not any(x["name"] == "activity" for x in self.defs):
                    self.defs.append(f_col("activity", act))
                cond = rx([lit("Buy")], [lit("Sell")]) if r.random() < 0.7 else rx([lit("buy")], [lit("TRANS")], fold=True)
                self.defs += [f_der("symbol", [t_fld("s_ref")], ("activity", cond)), f_der("quantity", [t_fld("q_ref")], ("activity", cond))]
                if r.random() < 0.3:
                    self.defs.append(f_der("note", [t_fld("q_ref"), t_lit(" "), t_fld("s_ref")]))
        k = r.random()
        if k < 0.3:
            self.defs.append(f_col("note", column(lambda: r.choice(["", "a note", "  x  y ", "#tag: v"]))))
        elif k < 0.6 and not any(f["name"] == "note" for f in self.defs):
            # templates over columns that may be empty, over other templates and over groups that may be empty
            nothing, anything = rx([atom("bol"), atom("eol")]), rx([cls("", True, 0, -1)])      # conditions that empty text satisfies
            part = lambda: r.choice(["", "", "one", "2 x", "a-b", "T7", " one", " ", "o "])
            c1, c2, c3 = column(part), column(part), column(part)
            opt = [atom("open", n=1), cls("T", False, 0, 1), atom("close", n=1), atom("open", n=2), cls(DIGITS, False, 0, -1), atom("close", n=2), atom("open", n=3), cls("x" + DIGITS, False, 0, -1), atom("close", n=3)]
            self.defs += [f_col("n1", c1), f_col("n2", c2), f_ext("n3", c3, [t_lit(r.choice(["", "<"])), t_grp(1), t_lit("/"), t_grp(2), t_lit(r.choice(["/", " and ", " -  "])), t_grp(3)] + [t_lit(">")] * r.choice([0, 1]), rx(opt)),
                          f_der("n4", [t_fld("n1"), t_lit(r.choice(["+", ", ", " of "])), t_fld("n2")] + [t_lit(r.choice([".", ") ", " end"]))] * r.choice([0, 1]),
                                *([("n1", r.choice([rx([lit("o")], [lit("a")]), nothing, anything]))] if r.random() < 0.5 else []))]
            refs = [r.choice(["n1", "n2", "n3", "n4"]) for _ in range(r.choice([1, 2, 3]))]
            tmpl = [t_lit(r.choice(["", "(", "see "]))]
            for x in refs:
                tmpl += [t_fld(x), t_lit(r.choice([" ", ")", "; ", " and more"]))]
            tmpl = [x for x in tmpl if x != t_lit("")]
            self.defs.append(f_der("note", tmpl, *([(r.choice(["n1", "n4", "description"]), r.choice([rx([cls("aeo", False, 1, 1)], [lit("T")]), nothing, anything]))] if r.random() < 0.5 else [])))
            if r.random() < 0.5:
                self.defs.append(r.choice([f_der("note", [t_lit("no other")]), f_col("note", c2)]))
        # the order of definitions matters only among those of one field
        if r.random() < 0.4:
            names = []
            for f in self.defs:
                if f["name"] not in names:
                    names.append(f["name"])
            r.shuffle(names)
            self.defs = [f for n in names for f in self.defs if f["name"] == n]
        perm = list(range(len(self.makers) + r.choice([0, 0, 1, 2])))
        r.shuffle(perm)
        self.width = len(perm)
        self.perm = perm
        for f in self.defs:
            if f["k"] != "der":
                f["col"] = perm[f["col"]]

    def row(self):
        row = [self.rng.choice(["", "zzz", "1"]) for _ in range(self.width)]
        for i, m in enumerate(self.makers):
            row[self.perm[i]] = m()
        return row


def c15_case(chk, case, d, rng):
    db, ids, rules = import_case(rng)
    known = [i for i in ids if any(x["k"] == "acct" and x["name"] == i for x in rules) or any(a["ofx"] == i for a in db.accts)]
    if not known:
        known = ids
    # rules to the accounts of commodities
    rules = [dict(x, acct=rng.choice(["Assets:Inv", "Assets:Bank"])) if x["k"] == "rule" and not x["drop"] and rng.random() < 0.2 and "Assets:Inv" in db.names and "Assets:Bank" in db.names else x for x in rules]
    if rng.random() < 0.2:
        cols = list(range(8))
        rng.shuffle(cols)
        n = rng.choice([4, 5, 7, 8, 8])
        few = ["5.00", "-5.00", "12.345", "0"]
        mk = [lambda: rng.choice(known), lambda: rand_desc(rng), lambda: "2019/01/%02d" % rng.randrange(1, 5), lambda: rng.choice(few), lambda: rng.choice(["", "USD", "CD"]),
              lambda: rng.choice(["", "VXF", "BTC"]), lambda: rng.choice(["", "3", "-4.5"]), lambda: rng.choice(["", "n  n"])]
        begin_db(case, d, db, rules, rng, name="csv.rules", source="---\n")
        rows = []
        for _ in range(rng.choice([1, 4, 10])):
            row = [""] * 8
            for i, c in enumerate(cols):
                row[c] = mk[i]()
            rows.append(row)
        spoil(rng, rows, cols[:n][2], cols[:n][3])
        csv_run(chk, case, d, "a", [], 0, [rows], cols=cols[:n], rng=rng)
        return
    t = Table(rng, db, known)
    skip = rng.choice([0, 0, 1, 2, 3])
    files = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        head = [["h%d" % i for i in range(rng.choice([t.width, t.width, 1, 3]))] for _ in range(skip)]
        rows = [t.row() for _ in range(rng.choice([0, 1, 3, 8]))]
        if rng.random() < 0.06 and rows:
            damage_row(rng, rows, t)
        files.append(head + rows)
    other = Table(rng, db, known)
    src = source_text("other", 1, other.defs, rng) if rng.random() < 0.3 else ""
    begin_db(case, d, db, rules, rng, name="csv.rules", source=src + source_text("src", skip, t.defs, rng) + "---\n")
    rc, out = csv_run(chk, case, d, "a", t.defs, skip, files, rng=rng)
    if rng.random() < 0.3:
        # the dumped sources convert in the same way
        rc, out, err = coin(chk, os.path.join(d, "db"), ["-rules"], exe="csv2coin")
        if rc != 0:
            case.local.append(dict(what="dumping the rules", expected=0, observed=[rc, err], event=len(case.events)))
            return
        open(os.path.join(d, "db", "csv.rules"), "w").write(out)
        case.replay["files"]["dumped csv.rules"] = out
        csv_run(chk, case, d, "b", t.defs, skip, files, rng=rng)


def spoil(rng, rows, date, amount):
    if rows and rng.random() < 0.1:
        r = rng.choice(rows)
        if rng.random() < 0.5:
            r[date] = rng.choice(["2019/02/30", "2019-01-01", "", "19/01/02", "2019/1/2", "2019/13/01"])
        else:
            r[amount] = rng.choice(["", "x", "1,000.00", "5.00 CAD", "--5", "1.2.3"])


def damage_row(rng, rows, t):
    i = rng.randrange(len(rows))
    k = rng.random()
    if k < 0.25:
        # a column that does not exist: of no consequence when nothing needs it
        if len(rows) > 1 or any(f["name"] == "account" and f["k"] == "col" and f["col"] == t.width - 1 for f in t.defs):
            rows[i] = rows[i][:-1]
    elif k < 0.4:
        rows[i] = rows[i] + ["more"]
    else:
        j = rng.randrange(t.width)
        rows[i][j] = rng.choice(["", "zz", "2019/02/30", "1.2.3", "5,00", "NaN"])


def c15_enumerated(s):
    def go(chk, case, d, rng):
        db = DB(accts=[dict(a) for a in s["accts"]], coms=s["coms"])
        begin_db(case, d, db, s["rules"], None, name="csv.rules", source=source_text("src", s["skip"], s["defs"]) + "---\n")
        csv_run(chk, case, d, "a", s["defs"], s["skip"], s["files"])
    return go


def c15(chk):
    chk.build("csv2coin")
    scn = emitted(chk.model("csv", "MC_Csv", MC_CSV % scale(chk, 1, 2), workers=8, heap="6g"))
    chk.run_cases([("enumerated-%d" % i, c15_enumerated(s)) for i, s in enumerate(sample(chk, scn, scale(chk, 400, 5000)))] +
                  [("records-%d" % i, c15_case) for i in range(scale(chk, 700, 7000))])
    chk.validate("Trace_Imports", constants="CONSTANT LimbDigits = 4")
    return chk.finish("model_checking", "sources, records and account trees enumerated by MC_Csv (sampled) and random ones, with the sources dumped and used again; non-trivial when distinct", IMPORT_ASSUMPTIONS)


MC_CSV = """SPECIFICATION MCSpec
CONSTANTS MaxRows = %d
 LimbDigits = 4
INVARIANTS TwoOpposite OwnCommodity InOrder Emitted
CHECK_DEADLOCK FALSE
"""
