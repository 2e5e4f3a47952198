"""C25: how ledger text is read.  Texts made of valid and damaged lines; the specification's reader decides what they mean."""
import datetime, json, os, random, re
from core import CheckError
from ledger import *
from p_ledger import LEDGER_ASSUMPTIONS, add_export, emitted, sample, scale, warnings_of
from p_ledger2 import read_table

BASE = {
    "commodities.coin": ["commodity CAD", "  note Canadian Dollar", "  format 1.00 CAD", "", "commodity USD", "  format 1.00 USD", "",
                         "commodity JPY", "  format 1 JPY", "", "commodity XAU", "  format 1.000 XAU"],
    "accounts.coin": ["account Assets:Bank", "account Assets:Usd", "  commodity USD", "account Expenses:Food", "account Income:Job", "account Liab:Card_1/x-y"],
}
PAIRS = [(a, b) for a in ("CAD", "USD", "JPY", "XAU") for b in ("CAD", "USD", "JPY", "XAU") if a != b]
BASE["prices.coin"] = ["P 2019/06/%02d %s 2 %s" % (i + 1, a, b) for i, (a, b) in enumerate(PAIRS)]
BEFORE = ["2020/01/01 First", "  Assets:Bank  1.00 CAD", "  Income:Job", ""]
AFTER = ["2020/12/31 Last ; end", "  Expenses:Food  2.00 CAD", "  Assets:Bank  -2.00 CAD"]


def today(d):
    """The current date where the scenario takes place."""
    return (date_in(d) - EPOCH).days


def num(rng):
    return rng.choice(["", "-"]) + str(rng.randrange(0, 60)) + rng.choice(["", "", ".%d" % rng.randrange(10), ".%02d" % rng.randrange(100), ".%03d" % rng.randrange(1000)])


def rdate(rng):
    y, m, d = rng.randrange(2018, 2022), rng.randrange(1, 13), rng.randrange(1, 29)
    return rng.choice(["%04d/%02d/%02d" % (y, m, d)] * 5 + ["%d/%d/%d" % (y, m, d), "%02d/%d/%d" % (y % 100, m, d), "%d/%02d" % (y, m), "%d" % y,
                      "%d/%d/%d%s%d%s" % (y, m, d, rng.choice("+-"), rng.randrange(0, 40), rng.choice("dwmy")), "2020/02/29", "2019/02/29", "2020/13/01", "2020/04/31",
                      "%02d/%02d/%02d" % (rng.randrange(0, 100), m, d), "%d/%d/%d" % (rng.randrange(0, 10), m, d), "%02d/%02d" % (m, d), "%d/%d" % (m, d), "0%d/%d" % (m % 10, d),
                      "+%d%s" % (rng.randrange(0, 40), rng.choice("dwmy")), "0", "00/1/1", "0000/1/1"])


COMS = ["CAD", "USD", "JPY", "XAU"]
ACCTS = ["Assets:Bank", "Assets:Usd", "Expenses:Food", "Income:Job", "Liab:Card_1/x-y", "Bank", "Job", "E:F", "assets::bank"]
NOTE = ["note", "#tag", "#k: v, #l:w x", "a ; b", "x  y", "100 CAD", "", " ", "#a,#b"]
DESC = ["Loeb", "Sloppy Joe's", "A & B (x)", "ACME #1", "100 CAD", "= x", "(c", "P"]


def comment(rng, p=0.25):
    return rng.choice(["", " ", " ", "\t", " \t ", "\t\t"]) + rng.choice([";", "; ", "; ", "; ", ";\t"]) + rng.choice(NOTE) if rng.random() < p else rng.choice([""] * 12 + [" ", "\t", "  \t"])


def sp(rng):
    return rng.choice([" ", " ", "  ", "\t"])


def amount(rng):
    return num(rng) + sp(rng) + rng.choice(COMS)


def valid_item(rng, kind):
    if kind == "commodity":
        ident = rng.choice(["EUR", "X1", "a_b"])
        body = rng.sample(["note Some money" + comment(rng), "format %s %s" % (rng.choice(["1", "1.0", "1.00", "1.000", "1000.00", "-1.00"]), ident) + comment(rng),
                           "nomarket" + comment(rng), "symbol " + rng.choice(["EUR.TO", "e", "1.a"]) + comment(rng), "default" + comment(rng, 0.1)], rng.randrange(0, 5))
        return ["commodity" + sp(rng) + ident + comment(rng)] + ["  " + b for b in body]
    if kind == "account":
        name = rng.choice(["Assets:Savings", "Equity", "A:B:C", "x_1:y-2/z"])
        body = rng.sample(["note My savings" + comment(rng), "commodity " + rng.choice(COMS) + comment(rng), "closed " + rdate(rng) + comment(rng),
                           "ofx_bankid 123" + comment(rng), "ofx_acctid 45" + comment(rng), "csv_acctid a_1" + comment(rng)], rng.randrange(0, 5))
        return ["account" + sp(rng) + name + comment(rng)] + ["  " + b for b in body]
    if kind == "price":
        a, b = rng.sample(COMS, 2)
        return ["P" + sp(rng) + rdate(rng) + sp(rng) + a + sp(rng) + num(rng).lstrip("-") + sp(rng) + b + comment(rng)]
    if kind == "txn":
        lines = [rdate(rng) + (" (%s)" % rng.choice(["12", "a_b", "x y", "", "c-d"]) if rng.random() < 0.3 else "") +
                 (sp(rng) + rng.choice(DESC) if rng.random() < 0.85 else "") + comment(rng)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append("  ;" + rng.choice(["", " "]) + rng.choice(NOTE))
        # accounts of different commodities: any stated amounts will do
        posts = [rng.choice(ACCTS) for _ in range(rng.choice([0, 1, 2]))] + ["Assets:Bank", "Assets:Usd"]
        rng.shuffle(posts)
        for a in posts:
            ln = sp(rng) + a + "  " + amount(rng)
            if rng.random() < 0.2:
                ln += sp(rng) + "=" + sp(rng) + (amount(rng) if rng.random() < 0.9 else num(rng) + " ZZZ")
            lines.append(ln + comment(rng))
            for _ in range(rng.choice([0, 0, 0, 1])):
                lines.append("    ;" + rng.choice(["", " "]) + rng.choice(NOTE))
        return lines
    if kind == "include":
        return ["include" + sp(rng) + rng.choice(["sub.inc", "./sub.inc", "s*.inc", "/sub.inc", "nothing.inc", "nothing*.inc"])]
    if kind == "test":
        return ["test balance -z", "some expected", "2020/01/01 not an entry", rng.choice(["end test", "  end test "])]
    if kind == "junk":
        return [rng.choice(["; x", "# x", "* x", "| x", "% x", "", "  ", "~ x", "x", "! y", "  Assets:Bank 1 CAD", "D 1.00 CAD", "alias a=b", "end test", "payee X",
                            "Account A", "ACCOUNT A", "includes sub.inc", "accounts A", "-1 CAD", "+1d foo", "p 2020/01/01 USD 1 CAD", "\t; note", "=", "tag x",
                            "comment", "commodities X", "default", "2020", "2020/01/01", "2020/01/01 x", "20200101 x", "2020-01-01 x", "2020.01.01 x", "include", "account",
                            "commodity", "test x", "P"])]
    raise ValueError(kind)


TOKENS = ["10", "-5", "1.5", ".5", "1.", "--5", "+5", "-", "1.2.3", "1,000", "1e3", "CAD", "USD", "ZZZ", "cad", "$", "=", "==", ";", "; n", ";n", "x", "@", "10 CAD", "= 5 CAD",
          "5.00 USD", "(12)", "Assets:Bank", "A:", ":B", "::", "2020/01/01", "note", "commodity", "format", "closed", "symbol", "default", "nomarket", "1.00", "\"CAD\"", "0x1",
          "-0", "00012", "CAD10", "10CAD", "end", "test", "#", "#t", "*", "!", "~", "{1 CAD}", "[2020/01/01]", "|", "1 1"]
CHARS = list(" \t;:.=-+#,()/_%@*'\"$&|~[]{}0159aAzZ\\^?!<>")


def damage(rng, lines):
    """Changes one or two places of the text."""
    lines = list(lines)
    for _ in range(rng.choice([1, 1, 1, 2])):
        if not lines:
            return lines
        i = rng.randrange(len(lines))
        ln = lines[i]
        k = rng.random()
        if k < 0.45:                                         # tokens
            parts = re.split(r"(\s+)", ln)
            toks = [j for j, p in enumerate(parts) if p.strip()]
            if not toks:
                continue
            j = rng.choice(toks)
            w = rng.random()
            if w < 0.3:
                parts.insert(j + 1, " " + rng.choice(TOKENS))
            elif w < 0.4:
                parts.insert(j, rng.choice(TOKENS) + " ")
            elif w < 0.6:
                parts[j] = rng.choice(TOKENS)
            elif w < 0.75:
                parts[j] = ""
            elif w < 0.85:
                o = rng.choice(toks)
                parts[j], parts[o] = parts[o], parts[j]
            elif w < 0.95:
                parts[j] = parts[j] + rng.choice(TOKENS)
            else:
                parts[j] = parts[j] + " " + parts[j]
            lines[i] = "".join(parts)
        elif k < 0.8:                                        # characters
            j = rng.randrange(len(ln) + 1)
            w = rng.random()
            if w < 0.45:
                lines[i] = ln[:j] + rng.choice(CHARS) + ln[j:]
            elif w < 0.7:
                lines[i] = ln[:j] + ln[j + 1:]
            elif w < 0.9:
                lines[i] = ln[:j] + rng.choice(CHARS) + ln[j + 1:]
            else:
                o = rng.randrange(len(ln) + 1)
                lines[i] = ln[:j] + ln[j:j + 1].swapcase() + ln[j + 1:] if o % 2 else ln[:j]
        else:                                                # lines
            w = rng.random()
            if w < 0.2:
                lines.pop(i)
            elif w < 0.35:
                lines.insert(i, rng.choice(["", " ", "; c", "  ; c", "# c", rng.choice(lines), "  x", "x"]))
            elif w < 0.5:
                lines[i] = ln.lstrip()
            elif w < 0.65:
                lines[i] = " " + ln
            elif w < 0.8 and i + 1 < len(lines):
                lines[i:i + 2] = [ln + lines[i + 1]]
            elif w < 0.9:
                j = rng.randrange(len(ln) + 1)
                lines[i:i + 1] = [ln[:j], ln[j:]]
            else:
                lines[i] = ln + rng.choice([" ", "\t", " x", ";", " ; x", " 1", "."])
    return lines


def too_big(lines):
    """Outside TLC's integers, or (two declarations of one commodity) not specified."""
    for ln in lines:
        t = re.sub(r"\d+/\d+(/\d+)?", "", ln)
        if re.search(r"\d{5,}|\.\d{4,}|[+-]\d{3,}[dwmy]", t):
            return True
        if re.match(r"\d{4,}", t) and not re.match(r"(19|20)\d\d\b", t):
            return True
    # days or years equally far from today in both directions
    now = datetime.datetime.now(datetime.timezone.utc).date()
    years = {(now + datetime.timedelta(k)).year for k in (-1, 1)}
    for ln in lines:
        for p in re.findall(r"[\d/]+", ln):
            p = p.split("/")
            if len(p) == 3 and len(p[0]) == 2 and any((int(p[0]) - y) % 100 == 50 for y in years):
                return True
            if len(p) == 2 and 0 < len(p[0]) < 3 and 0 < len(p[1]) < 3 and abs((int(p[0]) * 30 + int(p[1]) - now.month * 30 - now.day) % 360 - 180) < 9:
                return True
    ids = [m.group(1) for ln in lines for m in [re.match(r"commodity\s+(\w+)", ln)] if m] + ["CAD", "USD", "JPY", "XAU"]
    if len(set(ids)) < len(ids):
        return True
    if any(ord(c) > 126 or ord(c) < 32 and c != "\t" for ln in lines for c in ln):
        return True
    # a tab after the keyword: accepted after some keywords only, not specified
    if any(re.match(r"(commodity|test|P)\t", ln) for ln in lines):
        return True
    return any(re.match(r"test\s+$", ln) or "$" in ln and ln.startswith("include") or re.match(r"include.*[\[\\]", ln) for ln in lines)


def text_case(where, lines):
    """where: the file into which the lines go."""
    def fn(chk, case, d, rng):
        files = {n: list(ls) for n, ls in BASE.items()}
        files["transactions.coin"] = BEFORE + (lines + [""] if where == "transactions.coin" else []) + AFTER
        if where == "inside":                                # an attribute of the first commodity
            files["commodities.coin"].insert(rng.choice([1, 2, 3]), lines[0])
        elif where != "transactions.coin":
            files[where] = files[where] + [""] + lines if rng.random() < 0.5 else lines + [""] + files[where]
        files["sub.inc"] = ["2020/06/01 Included", "  Assets:Bank  3 CAD", "  Income:Job"]
        # the listings are made from these two files alone
        observe(chk, case, d, files, lists="|" not in "".join(lines) and (where in ("commodities.coin", "accounts.coin", "inside") or not any(re.match("commodity|account", x) for x in lines)))
        case.replay["lines"] = lines
    return fn


def observe(chk, case, d, files, lists=True):
    ends = random.Random(json.dumps(files))           # how lines and files end
    for n, ls in files.items():
        eol = ends.choice(["\n"] * 5 + ["\r\n"])
        with open(os.path.join(d, n), "w", encoding="utf-8", newline="") as f:
            f.write(eol.join(ls) + (eol if ends.random() < 0.7 else ""))
    day = today(d)
    rc, out, err = coin(chk, d, ["stats"], cwd=d)
    if rc == "timeout":
        case.local.append(dict(what="hangs"))
        return
    case.add("text", fs=[dict(name=n, lines=ls) for n, ls in sorted(files.items())], today=day)
    case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err), args="stats")
    rc2, out2, err2 = coin(chk, d, [], exe="coin2html", cwd=d)
    case.add("export", obs=read_export_of(rc2, out2))
    if rc == 0:
        chk.count("accepted")
    else:
        chk.count("rejected")
    if rc == 0 and lists:
        rc, out, err = coin(chk, d, ["accounts", "-c"], cwd=d)
        case.add("accounts", q=query(c=True, acct=""), obs=read_table(rc, out, 3))
        rc, out, err = coin(chk, d, ["commodities"], cwd=d)
        case.add("commodities", obs=read_table(rc, out, 4))
    elif rc != 0:
        rc, out, err = coin(chk, d, ["balance", "-z"], cwd=d)
        case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err), args="balance")
    if day != today(d):
        case.events = case.events[:1]
    case.weight = 12
    case.replay["commands"] = [["coin", "stats"], ["coin2html"]]
    keep_files(case, d)


def read_export_of(rc, out):
    from p_ledger import read_export
    return read_export(rc, out.replace('"./sub.inc:', '"DB/sub.inc:'))


def c25_case(chk, case, d, rng):
    while True:
        kind = rng.choice(["commodity", "account", "price", "txn", "txn", "txn", "txn", "include", "test", "junk"])
        lines = valid_item(rng, kind)
        if kind != "junk" and rng.random() < 0.8:
            lines = damage(rng, lines)
        if rng.random() < 0.15:
            lines = lines + rng.choice([[""], []]) + valid_item(rng, "junk")
        if not too_big(lines):
            break
    where = dict(commodity="commodities.coin", account="accounts.coin", price="prices.coin").get(kind, "transactions.coin")
    if rng.random() < 0.3:
        where = "transactions.coin"
    chk.count("kind " + kind)
    text_case(where, lines)(chk, case, d, rng)


LONG = "x" * 40


def c25_long(chk, case, d, rng):
    """A line that may be too long for the program: then loading fails, and nothing is read halfway."""
    files = {n: list(ls) for n, ls in BASE.items()}
    files["transactions.coin"] = BEFORE + ["include sub.inc", ""] + AFTER
    files["sub.inc"] = ["2020/06/01 Included", "  Assets:Bank  3 CAD", "  Income:Job"]
    n = rng.choice(sorted(files))
    at = rng.choice([0, len(files[n]), rng.randrange(len(files[n]) + 1)])
    heads = [i for i, ln in enumerate(files[n]) if re.match(r"commodity|account|\d", ln)]
    kind = rng.choice(["comment", "entry", "attr", "code"])
    if kind == "comment" or not heads:
        files[n].insert(at, "; " + LONG)
    else:
        i = rng.choice(heads)
        if kind == "entry":
            files[n][i] += " ; " + LONG
        else:
            files[n].insert(i + 1, "  ; " + LONG if n in ("transactions.coin", "sub.inc") else "  note " + LONG)
    long_ = "x" * rng.choice([100, 4000, 65000, 65500, 65536, 66000, 70000, 131072, 200000, 1100000])
    for f, ls in files.items():
        open(os.path.join(d, f), "w").write("".join(x.replace(LONG, long_) + "\n" for x in ls))
    rc, out, err = coin(chk, d, ["stats"], cwd=d)
    if rc != 0:
        files["commodities.coin"].insert(0, "too long")      # anything that cannot be read
        chk.count("long lines refused")
    else:
        chk.count("long lines read")
    case.add("text", fs=[dict(name=f, lines=ls) for f, ls in sorted(files.items())], today=today(d))
    case.add("load", ok=rc == 0, quiet=out == "", warn=warnings_of(err), args="stats")
    rc2, out2, err2 = coin(chk, d, [], exe="coin2html", cwd=d)
    case.add("export", obs=read_export_of(rc2, out2.replace(long_, LONG)))
    rc2, out2, err2 = coin(chk, d, ["register", "Assets:Bank"], cwd=d)
    if rc2 == 0:
        case.add("register", q=query(acct="Assets:Bank", l=12), obs=read_register(rc2, out2.replace(long_, LONG), query(l=12)))
    else:
        case.add("load", ok=rc == 0, quiet=out2 == "", warn=[], args="register")
    case.replay["line"] = [n, kind, len(long_)]


def c25_line(kind, line):
    def fn(chk, case, d, rng):
        if kind in ("posting", "balance"):
            lines, where = ["2020/03/03 Test", "  Assets:Bank  1.00 CAD", line, "  Assets:Usd  1.00 USD"], "transactions.coin"
        elif kind == "head":
            lines, where = [line, "  Assets:Bank  1.00 CAD", "  Income:Job"], "transactions.coin"
        elif kind == "price":
            lines, where = [line], "prices.coin"
        elif kind == "account":
            lines, where = [line, "  note x"], "accounts.coin"
        elif kind == "attr":
            lines, where = ["account Equity:New", line], "accounts.coin"
        elif kind == "inside":
            lines, where = [line], "inside"
        elif kind == "commodity":
            lines, where = [line, "  note x"], "commodities.coin"
        else:
            lines, where = ["commodity EUR", line], "commodities.coin"
        text_case(where, lines)(chk, case, d, rng)
    return fn


# lines of every form, to be followed by something that no form has
FORMS = [("commodity", "commodity EUR"), ("cattr", "  nomarket"), ("inside", "  default"), ("inside", "  symbol CAD.TO"), ("cattr", "  symbol E.TO"), ("cattr", "  format 1.00 EUR"),
         ("account", "account Equity:New"), ("attr", "  closed 2020/01/02"), ("attr", "  commodity USD"), ("attr", "  ofx_bankid 12"), ("attr", "  ofx_acctid 34"),
         ("attr", "  csv_acctid a1"), ("price", "P 2020/01/02 USD 1.20 CAD"), ("posting", "  Income:Job  1.00 CAD"), ("posting", "  Income:Job"),
         ("balance", "  Income:Job  1.00 CAD = 1.00 CAD")]


def c25(chk):
    chk.build("coin", "coin2html")
    cfg = "SPECIFICATION MCSpec\nCONSTANTS MaxTokens = %d\n Kind = \"%s\"\nINVARIANTS NothingLost Stable Emitted\nCHECK_DEADLOCK FALSE\n"
    mk = []
    for kind, n, keep in (("posting", 4, scale(chk, 300, 3000)), ("balance", scale(chk, 4, 5), scale(chk, 200, 1200)), ("head", scale(chk, 3, 4), scale(chk, 150, 900)),
                          ("price", scale(chk, 3, 4), scale(chk, 120, 900)), ("account", 3, scale(chk, 60, 400)), ("attr", scale(chk, 3, 3), scale(chk, 120, 800)),
                          ("commodity", 3, scale(chk, 50, 300)), ("cattr", scale(chk, 3, 3), scale(chk, 120, 800))):
        scn = emitted(chk.model("lines of kind " + kind, "MC_Syntax", cfg % (n, kind), workers=8))
        # as many of the accepted as of the rejected ones
        for acc in (True, False):
            part = [s for s in scn if s["ok"] == acc and not too_big([s["line"]])]
            chk.count("enumerated %s %s" % (kind, "accepted" if acc else "rejected"), len(part))
            mk += [("%s-%s-%d" % (kind, "ok" if acc else "bad", i), c25_line(kind, s["line"])) for i, s in enumerate(sample(chk, part, keep // 2))]
    trail = sample(chk, [(k, f + " " + t) for k, f in FORMS for t in ("x", "default", "=", "1", "-", "1.00 CAD", "x ; y", "2020/01/02", ",")], scale(chk, 90, 1000))
    mk += [("trailing-%d" % i, c25_line(k, ln)) for i, (k, ln) in enumerate(trail)]
    chk.run_cases(mk + [("long-%d" % i, c25_long) for i in range(scale(chk, 40, 300))] + [("text-%d" % i, c25_case) for i in range(scale(chk, 900, 6000))])
    chk.validate("Trace_Ledger")
    return chk.finish("model_checking", "lines of each kind enumerated token by token by MC_Syntax (half of them accepted, half rejected), and valid entries damaged at random, "
                      "read by the real programs in a small database; non-trivial when distinct", LEDGER_ASSUMPTIONS)
