"""Random ledgers, their text, and readers for what the programs print about them."""
import csv, datetime, io, json, os, random, re, zlib, zoneinfo
from core import run

EPOCH = datetime.date(1970, 1, 1)
DAY_2020 = (datetime.date(2020, 1, 1) - EPOCH).days


def date_of(n):
    return EPOCH + datetime.timedelta(days=n)


def date_text(n):
    d = date_of(n)
    return "%04d/%02d/%02d" % (d.year, d.month, d.day)


def amt(n, dec):
    """The canonical text of n minor units."""
    s = "%0*d" % (dec + 1, abs(n))
    return ("-" if n < 0 else "") + (s[:-dec] + "." + s[-dec:] if dec else s)


# -- entries ------------------------------------------------------------------------------------------
def commodity(id, dec=2, default=False, name="", sym="", nomarket=False):
    return dict(kind="commodity", id=id, dec=dec, default=default, name=name, sym=sym, nomarket=nomarket)


def account(name, com="", closed="", desc=""):
    return dict(kind="account", name=name, com=com, closed=closed, desc=desc)


def price(day, com, cur, val):
    return dict(kind="price", day=day, com=com, cur=cur, val=val)


def rand_closed(rng, start, span):
    """A closing date: around the time of the transactions, long ago, or still to come."""
    return date_text(start + rng.randrange(span)) if rng.random() < 0.6 else rng.choice(["2099/12/31", "2031/05/01", "1999/01/01", "2020/02/29", "9999/12/31"])


def post(acct, q=None, com="", bal=None, balcom="", notes=()):
    return dict(acct=acct, has=q is not None, q=q or 0, com=com, asserted=bal is not None, bal=bal or 0,
                balcom=balcom or (com if bal is not None else ""), notes=list(notes))


def txn(day, desc, posts, code="", notes=()):
    return dict(kind="txn", day=day, desc=desc, code=code, notes=list(notes), posts=posts)


# -- text ---------------------------------------------------------------------------------------------
class Style:
    """How entries are laid out; every choice reads back as the same entry."""

    def __init__(self, rng=None, plain=False):
        self.rng, self.plain = rng, plain or rng is None
        self.big = 1                                   # amounts (not prices) are written this many times as large

    def pick(self, p):
        return (not self.plain) and self.rng.random() < p

    def blank(self, least=1):
        if self.plain:
            return " " * max(least, 1)
        return self.rng.choice([" ", "  ", "\t", "   "]) if self.pick(0.3) else " "

    def amount(self, n, dec, big=None):
        s = amt(n * (big or self.big), dec)
        if dec and not self.plain and self.pick(0.3):
            t = s.rstrip("0").rstrip(".")
            if "." not in t and self.pick(0.5):
                return t
            if "." in t:
                return t
        return s

    def comment(self):
        return self.blank() + "; " + self.rng.choice(["note to self", "x", "see #1"]) if self.pick(0.15) else ""


def render_entry(e, decs, st):
    """Lines of text of an entry."""
    k = e["kind"]
    if k == "raw":
        return list(e["lines"])
    if k == "commodity":
        lines = ["commodity " + e["id"] + st.comment()]
        body = []
        if e["name"]:
            body.append("note " + e["name"])
        if e["dec"] != 2 or not st.pick(0.3):
            body.append("format %s %s" % ("1" + ("." + "0" * e["dec"] if e["dec"] else ""), e["id"]) + st.comment())
        if e["nomarket"]:
            body.append("nomarket")
        if e["sym"]:
            body.append("symbol " + e["sym"])
        if e["default"]:
            body.append("default" + st.comment())
        if not st.plain:
            st.rng.shuffle(body)
        return lines + ["  " + b for b in body]
    if k == "account":
        lines = ["account " + e["name"] + st.comment()]
        body = []
        if e["desc"]:
            body.append("note " + e["desc"])
        if e["com"]:
            body.append("commodity " + e["com"] + st.comment())
        if e["closed"]:
            body.append("closed " + e["closed"])
        for a in e.get("extra", []):
            body.append(a)
        if not st.plain:
            st.rng.shuffle(body)
        return lines + ["  " + b for b in body]
    if k == "price":
        return ["P " + date_text(e["day"]) + st.blank() + e["com"] + st.blank() + st.amount(e["val"], decs.get(e["cur"], 2), 1)
                + st.blank() + e["cur"] + st.comment()]
    if k == "txn":
        head = date_text(e["day"])
        if e["code"]:
            head += " (" + e["code"] + ")"
        if e["desc"]:
            head += st.blank() + e["desc"]
        notes = list(e["notes"])
        if notes and notes[0].strip() and notes[0] == notes[0].lstrip() and (st.plain or st.pick(0.5)):
            head += " ; " + notes.pop(0)
        lines = [head] + ["  ; " + n for n in notes]
        for p in e["posts"]:
            ln = "  " + (st.blank() if st.pick(0.2) else "") + p["acct"]
            if p["has"]:
                ln += "  " + st.blank() + st.amount(p["q"], decs.get(p["com"], 2)) + " " + p["com"]
                if p["asserted"]:
                    ln += st.blank() + "=" + st.blank() + st.amount(p["bal"], decs.get(p["balcom"], 2)) + " " + p["balcom"]
            notes = list(p["notes"])
            if notes and notes[0].strip() and notes[0] == notes[0].lstrip() and (st.plain or st.pick(0.6)):
                ln += " ; " + notes.pop(0)
            lines.append(ln)
            lines += ["    ; " + n for n in notes]
        return lines
    raise ValueError(k)


JUNK = ["", "; a comment", "# another", "* heading", "| bar", "% percent", ";"]


def write_files(d, files, decs, st):
    """files: list of (name, entries) in the order in which they are read; sets the location of each entry."""
    for name, entries in files:
        out = []
        for e in entries:
            while st.pick(0.15):
                out.append(st.rng.choice(JUNK))
            e["loc"] = "DB/%s:%d" % (name, len(out) + 1)
            out += render_entry(e, decs, st)
            if e["kind"] in ("commodity", "account") or not st.pick(0.4):
                if not (e["kind"] == "raw" and e.get("tight")):
                    out.append("")
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write("\n".join(out) + ("\n" if out and not st.pick(0.1) else ""))


def standard_files(entries, txn_files=None):
    coms = [e for e in entries if e["kind"] == "commodity"]
    accs = [e for e in entries if e["kind"] == "account"]
    prices = [e for e in entries if e["kind"] == "price"]
    rest = [e for e in entries if e["kind"] in ("txn",)]
    return [("commodities.coin", coms), ("prices.coin", prices), ("accounts.coin", accs)] + (
        txn_files(rest) if txn_files else [("transactions.coin", rest)])


def add_events(case, files):
    for _, entries in files:
        for e in entries:
            if e["kind"] == "raw":
                continue
            ev = {k: v for k, v in e.items() if k not in ("kind", "extra")}
            case.add(e["kind"], **ev)


def _zones():
    have = zoneinfo.available_timezones()
    return ["UTC", "UTC"] + [z for z in ("America/Toronto", "Asia/Tokyo", "America/St_Johns", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Australia/Lord_Howe",
                                         "America/Sao_Paulo", "Asia/Kolkata", "Europe/Berlin") if z in have]


ZONES = _zones()
SCENARIO = re.compile(r"/cases/(\d{5})")


def number_in(d):
    """A number that goes with the scenario that has this directory."""
    m = SCENARIO.search(d)
    return zlib.crc32(m.group(1).encode() if m else b"")


def zone_of(d):
    """The time zone in which the scenario in this directory takes place."""
    return ZONES[number_in(d) // 100 % len(ZONES)]


NOWS = {}


def now_in(d):
    """The time at which the scenario in this directory takes place."""
    n = number_in(d)
    if n not in NOWS:
        r = random.Random(n)
        y, k = r.randrange(2015, 2036), r.random()
        if k < 0.15:
            y = r.choice([1975, 1999, 2000, 2001, 2049, 2050, 2051, 2090, 2099, 2100, 2101, 2150])
        elif k < 0.25:
            y = r.choice([2020, 2024, 2028, 2000])
        m, dd = r.choice([(2, 28), (3, 1), (12, 31), (1, 1), (1, 31), (6, 30), (7, 1), (7, 2), (1, 30), (2, 1), (2, 29)]) if r.random() < 0.35 else (r.randrange(1, 13), r.randrange(1, 29))
        if (m, dd) == (2, 29) and not (y % 4 == 0 and y % 100):
            y = 2024
        t = r.choice([(0, 0, 1), (23, 59, 58), (12, 0, 0), (11, 59, 59)]) if r.random() < 0.5 else (r.randrange(24), r.randrange(60), r.randrange(60))
        NOWS[n] = datetime.datetime(y, m, dd, *t, tzinfo=zoneinfo.ZoneInfo(zone_of(d)))
    return NOWS[n]


def date_in(d):
    """The current date of the scenario in this directory."""
    return now_in(d).date()


def clock_in(d):
    """Variables of the environment for a program run in the scenario that has this directory."""
    return dict(TZ=zone_of(d), PRETEND_NOW=str(int(now_in(d).timestamp())))


def db_env(d, **kw):
    env = dict(PATH=os.environ.get("PATH", ""), HOME="/nonexistent", COINDB=d, **clock_in(d))
    env.update(kw)
    return env


def vantage(chk, d):
    """(directory to run in, name of the database from there, what to read as the database's place in the output): it does not matter where coin is run."""
    parent, base = os.path.split(d)
    k = number_in(d) // 7 % 8
    if k == 0:
        return d, d, [(re.compile(r"(?<![\w./-])\./(?=[^\s:\"]*\.(?:coin|prices|inc|txt|test)\b)"), "DB/")]
    if k == 1:
        return parent, base, [(base + "/", "DB/"), (in_json(base) + "/", "DB/")]
    if k == 2:                                        # what the two names have in common is no directory
        near = os.path.join(parent, base[:-1])
        os.makedirs(near, exist_ok=True)
        return near, d, []
    if k == 3:
        return "/", d, [("." + d + "/", "DB/")]
    if k == 4:
        return parent, d, [("./" + base + "/", "DB/")]
    if k == 5:
        return d, ".", [(re.compile(r"(?<![\w./-])(?!DB/)((?:[\w-]+/)*[\w.-]+\.(?:coin|prices|inc|txt):\d)"), r"DB/\1")]
    if k == 6:
        return chk.bin, d + "/", []
    return chk.bin, d, []


BIG = {}                                               # directory of a scenario: how many times as large its amounts are
BIGS = [1000000000039, 99999999999973]                # amounts of a ledger have to fit 63 bits, their sums do not
NUMERAL = re.compile(r"(?<![\w.])(\d+)(?:\.(\d+))?(?![\w.])")


def smaller(text, big):
    """The text with every amount that many times smaller.  What is no multiple, or less, stays as it is."""
    def sub(m):
        n = int(m.group(1) + (m.group(2) or ""))
        return m.group(0) if n < big or n % big else amt(n // big, len(m.group(2) or ""))
    return NUMERAL.sub(sub, text)


def in_json(s):
    return s.replace("&", "\\u0026").replace("<", "\\u003c").replace(">", "\\u003e")


def coin(chk, d, args, exe="coin", **kw):
    argv = [chk.exe(exe)] + list(args)
    where, name, names = (kw.pop("cwd"), d, []) if "cwd" in kw else vantage(chk, d)
    rc, out, err = run(argv, cwd=where, env=db_env(d, COINDB=name), **kw)
    chk.count("runs")
    if d in BIG:
        out, err = smaller(out, BIG[d]), smaller(err, BIG[d])

    def fix(text):
        for a, b in [(x, y) for x, y in names if isinstance(x, str) and x.startswith("." + d)] + [(d + "/", "DB/"), (in_json(d) + "/", "DB/")] + names:
            text = text.replace(a, b) if isinstance(a, str) else a.sub(b, text)
        return text
    return rc, fix(out), fix(err)


def keep_files(case, d, cmds=()):
    """Keeps the scenario's files for the replay file."""
    files = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            files[os.path.relpath(p, d)] = open(p, encoding="utf-8", errors="replace").read()
    case.replay["files"] = files
    case.replay.setdefault("commands", []).extend(cmds)


# -- expressions --------------------------------------------------------------------------------------
def alt(t, s=False, e=False):
    return dict(s=s, e=e, t=t)


def rex_text(alts):
    def esc(t):
        return re.sub(r"([.+*?()\[\]{}|^$\\])", r"\\\1", t)
    return "|".join(("^" if a["s"] else "") + esc(a["t"]) + ("$" if a["e"] else "") for a in alts)


def rand_alts(rng, words, fold=True, blanks=False):
    out = []
    for _ in range(1 if rng.random() < 0.7 else 2):
        w = rng.choice(words)
        if not w:
            out.append(alt("", True, True) if rng.random() < 0.5 else alt("zz"))
            continue
        i = rng.randrange(len(w))
        j = rng.randrange(i, len(w)) + 1
        kind = rng.random()
        if kind < 0.3:
            a = alt(w)
        elif kind < 0.5:
            a = alt(w[:j], True, False)
        elif kind < 0.65:
            a = alt(w[i:], False, True)
        elif kind < 0.8:
            a = alt(w, True, True)
        else:
            a = alt(w[i:j])
        if fold and rng.random() < 0.3:
            a["t"] = "".join(c.swapcase() if c < "\x7f" else c for c in a["t"])
        a["t"] = a["t"].strip() or w.strip() or "x"
        if blanks and rng.random() < 0.15:               # blanks are part of it
            a["t"] = rng.choice([" " + a["t"], a["t"] + " "])
        out.append(a)
    return out


def query(**kw):
    q = dict(acct="", hasb=False, b=0, hase=False, e=0, hasp=False, pinv=False, p=[], hast=False,
             t=dict(inv=False, key=[], hasval=False, val=[]),
             r=False, l=0, z=False, f=False, n=False, c=False, g=5, o="text", period="", cat="", v=False, a=False, u=False, d=False)
    q.update(kw)
    return q


def filter_args(q, payee_inv=True):
    args = []
    if q["hasb"]:
        args += ["-b", date_text(q["b"])]
    if q["hase"]:
        args += ["-e", date_text(q["e"])]
    if q["hasp"]:
        args += ["-p", ("!" if q["pinv"] else "") + rex_text(q["p"])]
    if q["hast"]:
        t = q["t"]
        args += ["-t", ("!" if t["inv"] else "") + rex_text(t["key"]) + (":" + rex_text(t["val"]) if t["hasval"] else "")]
    return args


# -- readers ------------------------------------------------------------------------------------------
def obs(ok, head="", rows=()):
    return dict(ok=bool(ok), head=head, rows=[list(r) for r in rows])


def read_balance(rc, out):
    rows = []
    for ln in out.splitlines():
        f = ln.split("|")
        if len(f) != 3:
            return obs(rc == 0, "unreadable: " + ln)
        rows.append([f[0].strip()] + f[1].split() + [f[2].strip()])
    return obs(rc == 0, "", rows)


def read_register(rc, out, q):
    lines = out.splitlines()
    head = lines[0] if lines else ""
    if rc != 0:
        return obs(False, head, [["?"]] if len(lines) > 1 else [])
    rows = []
    for ln in lines[1:]:
        if ln.startswith(" " * 11 + "; ") or ln == " " * 11 + ";":
            if not rows:
                return obs(True, "unreadable: " + ln)
            rows[-1].append(ln[13:])
            continue
        f = [x.strip() for x in ln.split("|")]
        want = 6 if q["r"] else 5
        loc = ""
        if q["f"]:
            if len(f) != want + 1:
                return obs(True, "unreadable: " + ln)
            loc = f.pop()
        if len(f) != want:
            return obs(True, "unreadable: " + ln)
        m = re.match(r"^(-?[\d.]+) (\w+)( ?\*?)$", f[-1])
        if not m:
            return obs(True, "unreadable: " + ln)
        star = "*" if "*" in ln.split("|")[want - 1] else ""
        rows.append(f[:-1] + [m.group(1), star, loc])
    return obs(True, head, rows)


def read_aggregate(rc, out, q):
    if rc != 0:
        return obs(False, "", [] if len(out.splitlines()) <= 1 else [["?"]])
    keys = (1 if q["period"] else 0) + (1 if q["cat"] else 0)
    if q["o"] == "text":
        lines = out.splitlines()
        if not lines:
            return obs(True, "unreadable")
        rows = []
        for i, ln in enumerate(lines[1:]):
            f = [x.strip() for x in ln.split("|")]
            rows.append(f[keys:] if i == 0 else f)
        return obs(True, lines[0], rows)
    if q["o"] == "csv":
        rows = list(csv.reader(io.StringIO(out)))
    else:
        rows = [json.loads(x) for x in out.splitlines()]
    if rows:
        want = (["Date"] if q["period"] else []) + (["Category"] if q["cat"] else [])
        if rows[0][:keys] != want:
            return obs(True, "unreadable header")
        rows[0] = rows[0][keys:]
    return obs(True, "", rows)


def read_tags(rc, out, q):
    rows = []
    for ln in out.splitlines():
        if ln.startswith("\t"):
            if "\t@" not in rows[-1]:
                rows[-1].append("\t@")
            rows[-1].append(ln[1:])
            continue
        m = re.match(r'^([\w/-]+)(:?)( ".*")?$', ln)
        if not m:
            return obs(rc == 0, "unreadable: " + ln)
        vals = m.group(3)[2:-1].split('", "') if m.group(3) else []
        rows.append([m.group(1), m.group(2)] + vals)
    if q["a"]:
        for r in rows:
            if "\t@" not in r:
                r.append("\t@")
            i = r.index("\t@") + 1                           # in no particular order
            r[i:] = sorted(r[i:])
    return obs(rc == 0, "", rows)


def read_stats(rc, out):
    o = dict(ok=rc == 0, dups=[], unb=[], bad=[], counts=[])
    lines = out.splitlines()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln == "DUPLICATE TRANSACTION?":
            locs = [x for x in lines[i + 1:] if re.match(r"^(DB/\S+:\d+)$", x)][:2]
            o["dups"].append(locs)
        elif ln == "UNBALANCED TRANSACTION!":
            o["unb"].append(lines[i + 1])
        elif ln.startswith("BAD CONVERSION:"):
            o["bad"].append(ln.rsplit(" : ", 1)[1])
        else:
            m = re.match(r"^(Commodities|Prices|Accounts|Transactions): (\d+)$", ln)
            if m:
                o["counts"].append(m.group(2))
        i += 1
    return o


def warnings_of(err):
    return [ln for ln in err.splitlines() if " balance is " in ln]


# -- random ledgers -----------------------------------------------------------------------------------
PARTS = ["Assets", "Asset", "Bank", "Cash", "Food", "Foo", "Rent", "Misc", "Income", "Car", "Care", "Tax", "A", "B", "bonus", "alms", "a", "Zoo", "Ins/Car/b", "On-line", "Tax_1/x-y"]
DESCS = ["Grocer", "grocery store", "Rent", "Cinema City", "ACME Inc.", "Pay", "Payday", "Bus", "a b  c", "", "Café Zoé", "日本 shop", "señor Paul"]
KEYS = ["food", "Foo", "trip", "work", "a-b", "x/y", "tag_1", "Trip", "z-"]
VALS = ["paris", "Paris", "Rome", "new york", "x", "12", "a:b", "p", "café", "日本"]
WORDS = ["élan", "lunch", "see above", "paid", "ref 12", "q"]


def tag_text(rng):
    k = rng.choice(KEYS)
    if rng.random() < 0.5:
        return "#" + k
    return "#" + k + ":" + rng.choice(["", " "]) + rng.choice(VALS)


def note_text(rng, tags=0.5):
    bits = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        bits.append(tag_text(rng) if rng.random() < tags else rng.choice(WORDS))
    return rng.choice([", ", ", ", ","]).join(bits)


class Gen:
    """A random ledger.  Keeps rough running sums so that most transactions balance and most assertions hold."""

    def __init__(self, rng, coms=1, accts=8, txns=12, span=40, tags=0.3, codes=0.2, assertions=0.15, wrong=0.3, missing=0.35,
                 decs=(2,), chain=True, depth=3, dups=0.0, abbrev=0.15, descs=None, notes=0.25, ismulti=0.4, unbalanced=0.05,
                 start=None, prices_per=2, closed=0.1, zero=0.05, own_com=0.0):
        self.rng = rng
        self.entries = []
        ids = ["CAD", "USD", "EUR", "JPY", "ABC", "X1"]
        rng.shuffle(ids)
        self.coms = ids[:coms]
        self.dec = {c: rng.choice(decs) for c in self.coms}
        self.default = self.coms[0]
        default_at = self.default
        order = list(self.coms)
        rng.shuffle(order)
        for c in order:
            self.entries.append(commodity(c, self.dec[c], default=(c == default_at), name=rng.choice(["", "Money", "Some money"]),
                                          sym=rng.choice(["", "", c + ".TO", "S" + c]), nomarket=rng.random() < 0.3))
        self.start = DAY_2020 + rng.randrange(-400, 400) if start is None else start
        self.span = span
        # prices: a chain from every commodity to the default one, and more
        if coms > 1 and chain:
            prev = self.default
            self.pairs = []
            line = [c for c in self.coms if c != self.default]
            rng.shuffle(line)
            for c in line:                           # a tree of pairs: one path between any two commodities
                to = rng.choice([x for x in [self.default] + line[:line.index(c)]])
                self.pairs += [(c, to), (to, c)]
            used = set()
            for c, to in self.pairs:
                for _ in range(rng.randrange(1, prices_per + 1)):
                    day = self.start + rng.randrange(span)
                    if (c, to, day) in used:
                        continue
                    used.add((c, to, day))
                    self.entries.append(price(day, c, to, rng.randrange(1, min(900, 5 * 10 ** self.dec[c] + 20))))
                    if rng.random() < 0.1:                # stated twice
                        self.entries.append(dict(self.entries[-1]))
        # accounts
        names = set()
        tries = 0
        while len(names) < accts and tries < 200:
            tries += 1
            n = []
            for _ in range(rng.randrange(1, depth + 1)):
                n.append(rng.choice(PARTS))
            base = rng.choice(sorted(names)) if names and rng.random() < 0.5 else ""
            name = ":".join(([base] if base else []) + n)
            if name.count(":") <= depth:
                names.add(name)
        names = sorted(names)
        rng.shuffle(names)
        self.names = names
        self.com = {}
        for n in names:
            c = rng.choice(self.coms) if rng.random() < ismulti else ""
            self.com[n] = c or self.default
            self.entries.append(account(n, c, closed=rand_closed(rng, self.start, span) if rng.random() < closed else "",
                                        desc=rng.choice(["", "", "My account", "other: thing"])))
        self.com["Unbalanced"] = self.default
        if rng.random() < 0.15:                        # these two exist anyway, but can be declared as well
            n = rng.choice(["Unbalanced", "Unbalanced", "Root"])
            c = rng.choice(self.coms + [""]) if ismulti else ""
            self.com[n] = c or self.default
            self.entries.append(account(n, c, closed=rand_closed(rng, self.start, span) if rng.random() < closed else "",
                                        desc=rng.choice(["", "What is left"])))
        self.run = {n: 0 for n in names}
        self.run["Unbalanced"] = 0
        self.opts = dict(tags=tags, codes=codes, assertions=assertions, wrong=wrong, missing=missing, abbrev=abbrev,
                         notes=notes, unbalanced=unbalanced, zero=zero, own_com=own_com)
        self.descs = descs or rng.sample(DESCS, 5)
        self.txns = []
        days = sorted(self.start + rng.randrange(span) for _ in range(txns))
        for d in days:
            if dups and self.txns and rng.random() < dups:
                t = json.loads(json.dumps(rng.choice(self.txns)))
                if rng.random() < 0.3:
                    t["day"] = d
                self.txns.append(t)
                continue
            self.txns.append(self.transaction(d))
        if rng.random() < 0.5:
            k = rng.random()
            if k < 0.4:
                rng.shuffle(self.txns)
            else:                                      # mostly in order
                for _ in range(max(1, len(self.txns) // 6)):
                    i = rng.randrange(len(self.txns))
                    self.txns.insert(rng.randrange(len(self.txns)), self.txns.pop(i))
        self.entries += self.txns

    def expr(self, n):
        """An abbreviation of n (which need not be unambiguous) or n itself."""
        rng = self.rng
        if rng.random() >= self.opts["abbrev"]:
            return n
        return unique_abbrev(rng, n, closure(self.names))

    def notes(self):
        rng = self.rng
        if rng.random() >= self.opts["notes"]:
            return []
        return [note_text(rng, self.opts["tags"]) for _ in range(rng.choice([1, 1, 2] * 6 + [4, 6]))]

    def transaction(self, day):
        rng, o = self.rng, self.opts
        pool = self.names + (["Unbalanced"] if rng.random() < o["unbalanced"] else [])
        c = self.com[rng.choice(pool)]
        mixed = len(self.coms) > 1 and rng.random() < 0.35
        same = [n for n in pool if self.com[n] == c]
        k = rng.choice([2, 2, 2, 2, 3, 3, 4, 5] * 5 + [9, 17])
        posts = []
        if mixed:
            for _ in range(k):
                n = rng.choice(pool)
                posts.append(post(n, self.amount(), self.com[n]))
            if len({self.com[p["acct"]] for p in posts}) == 1:
                mixed = False
                posts = []
        if not mixed:
            rest = 0
            for i in range(k):
                n = rng.choice(same)
                q = self.amount() if i < k - 1 else -rest
                rest += q
                posts.append(post(n, q, c))
            rng.shuffle(posts)
            if rng.random() < o["missing"]:
                i = rng.randrange(k)
                q = posts[i]["q"]
                posts[i] = dict(post(posts[i]["acct"]), hidden=q)
        for p in posts:
            n = p["acct"]
            q = p.pop("hidden", p["q"])
            self.run[n] += q
            if p["has"] and rng.random() < o["assertions"]:
                p["asserted"], p["balcom"] = True, self.com[n]
                p["bal"] = self.run[n] + (rng.choice([-100, 1, 50]) if rng.random() < o["wrong"] else 0)
            p["notes"] = self.notes() if rng.random() < 0.5 else []
            p["acct"] = self.expr(n)
        return txn(day, rng.choice(self.descs), posts, code=rng.choice(["", "12", "x7"]) if rng.random() < o["codes"] else "",
                   notes=self.notes())

    def amount(self):
        rng = self.rng
        if rng.random() < self.opts["zero"]:
            return 0
        q = rng.choice([rng.randrange(1, 20), rng.randrange(1, 500), rng.randrange(1, 20000 if len(self.coms) == 1 else 4000), 1000, 500])
        return q if rng.random() < 0.6 else -q

    def files(self, st=None):
        rng = self.rng
        if rng.random() < 0.3 and len(self.txns) > 2:
            def split(rest):
                cut = sorted(rng.randrange(len(rest) + 1) for _ in range(2))
                return [("a.coin", rest[:cut[0]]), ("b.coin", rest[cut[0]:cut[1]]), ("c.coin", rest[cut[1]:])]
            return standard_files(self.entries, split)
        return standard_files(self.entries)

    def rand_query(self, **kw):
        rng = self.rng
        q = query()
        days = [t["day"] for t in self.txns] or [self.start]
        if rng.random() < 0.35:
            q["hasb"], q["b"] = True, rng.choice(days) + rng.choice([0, 0, 1, -1])
        if rng.random() < 0.35:
            q["hase"], q["e"] = True, rng.choice(days) + rng.choice([0, 0, 1, -1])
        if rng.random() < 0.3:
            q["hasp"], q["p"] = True, rand_alts(rng, [d for d in self.descs if d] or ["x"], blanks=True)
        if rng.random() < 0.3:
            q["hast"] = True
            q["t"] = dict(inv=rng.random() < 0.4, key=rand_alts(rng, KEYS), hasval=rng.random() < 0.4, val=[])
            if q["t"]["hasval"]:
                q["t"]["val"] = rand_alts(rng, VALS + [""])
        q.update(kw)
        return q


def closure(names):
    out = {"Root", "Unbalanced"}
    for n in names:
        p = n.split(":")
        for i in range(len(p)):
            out.add(":".join(p[:i + 1]))
    return sorted(out)


def matches(expr, name):
    """Used only to propose abbreviations; the specification decides what they denote."""
    rx = ".*?".join(re.escape(w) for w in expr.split(":"))
    words = expr.split(":")
    rx = r"[\w/-]*:[\w/-]*".join(re.escape(w) for w in words)
    return re.search(rx, name, re.I) is not None


def unique_abbrev(rng, n, names):
    parts = n.split(":")
    for _ in range(6):
        ws = []
        for p in parts:
            i = rng.randrange(len(p)) if rng.random() < 0.2 else 0
            ws.append(p[i:rng.randrange(i, len(p)) + 1])
        lo = rng.randrange(len(ws)) if rng.random() < 0.3 else 0
        e = ":".join(ws[lo:])
        if rng.random() < 0.5:
            e = e.lower()
        if not e[0].isalpha() or any(not re.match(r"[A-Za-z][\w/-]*$", w) for w in e.split(":")):
            continue
        hits = [x for x in names if matches(e, x)]
        if hits == [n] or (n in hits and all(h == n or h.startswith(n + ":") for h in hits)):
            return e
    return n


def generate(rng, **kw):
    return Gen(rng, **kw)
