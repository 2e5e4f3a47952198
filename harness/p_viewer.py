"""C27, C28: what the viewer of the HTML export shows, after every action of its user."""
import json, os
from core import CheckError, REPO, VERIF, go_env, run
from ledger import DAY_2020, account, add_events, coin, commodity, date_of, date_text, keep_files, post, price, standard_files, txn, write_files, EPOCH
from p_ledger import emitted, sample, scale, style
import datetime
from concurrent.futures import ThreadPoolExecutor

DRIVER = os.path.join(VERIF, "drivers", "viewer")
JS = os.path.join(REPO, "cmd", "coin2html", "js")
ZONES = ["UTC", "America/Toronto", "Asia/Tokyo", "Europe/London", "Pacific/Auckland", "America/St_Johns"]
TOPS = ["Assets", "Liabilities", "Income", "Expenses", "Equity"]
LEAVES = ["Bank", "Cash", "Root", "Food", "Rent", "Card", "A", "Other", "Savings-and-long-term-investments", "Xx_1"]
DESCS = ["Groceries", "pay", "Ćevapi & co <b>", "a \"quoted\" shop", "x", "Transfer  two"]


def day(y, m, d):
    return (datetime.date(y, m, d) - EPOCH).days


class ViewGen:
    def __init__(self, rng, big=False):
        self.rng = rng
        two = rng.random() < 0.4
        self.dec = {"CAD": rng.choice([2, 2, 2, 3])}
        self.default = "CAD"
        coms = [commodity("CAD", self.dec["CAD"], default=True)]
        prices = []
        if two:
            self.dec["USD"] = rng.choice([2, 2, 3])
            coms.append(commodity("USD", self.dec["USD"]))
        y0 = rng.choice([2014, 2019, 2020, 2023])
        years = rng.choice([1, 1, 2, 3])
        self.first, self.last = day(y0, 1, 1), day(y0 + years - 1, 12, 31)
        if two:
            prices.append(price(rng.randrange(self.first, self.last + 1), "USD", "CAD", rng.choice([135, 75, 200, 1234])))
        names, self.com = ["Assets"], {"Assets": "CAD"}
        for t in TOPS[1:]:
            if rng.random() < (0.8 if t in ("Income", "Expenses") else 0.6):
                names.append(t)
                self.com[t] = "CAD"
        tries = 0
        want = len(names) + rng.choice([2, 5, 8, 12])
        while len(names) < want and tries < 100:
            tries += 1
            base = rng.choice(names)
            n = base + ":" + rng.choice(LEAVES)
            if n in names or n.count(":") > 4:
                continue
            names.append(n)
            self.com[n] = "USD" if self.com[base] == "USD" or (two and rng.random() < 0.25) else "CAD"
        self.names = names
        self.pool = [n for n in names if rng.random() < 0.85] or names
        txns = []
        spread = rng.choice([1, 2, 4])
        hot = [rng.randrange(self.first, self.last + 1) for _ in range(spread * 4)] + [self.first, self.last, self.first + 30]
        for _ in range(rng.choice([1, 6, 20, 45]) if not big else 90):
            d = rng.choice(hot) if rng.random() < 0.6 else rng.randrange(self.first, self.last + 1)
            txns.append(self.transaction(d))
        if rng.random() < 0.5:
            rng.shuffle(txns)
        else:
            txns.sort(key=lambda t: t["day"])
        self.txns = txns
        used = {}
        for t in txns:
            for p in t["posts"]:
                used[p["acct"]] = max(used.get(p["acct"], 0), t["day"])
        closed = {}
        if rng.random() < 0.6:
            for n in rng.sample(names, min(len(names), 3)):
                if n in TOPS:
                    continue
                under = [m for m in names if m == n or m.startswith(n + ":")]
                last = max([used.get(m, self.first) for m in under])
                at = min(max(last, rng.randrange(self.first, self.last + 1)), self.last + 30)
                for m in under:
                    closed[m] = min(closed.get(m, at), at)
        self.closed = closed
        order = list(names)
        rng.shuffle(order)
        accts = [account(n, self.com[n] if self.com[n] != "CAD" or rng.random() < 0.3 else "", closed=date_text(closed[n]) if n in closed else "")
                 for n in order]
        self.entries = coms + prices + accts + txns
        self.descs = DESCS

    def amount(self):
        rng = self.rng
        q = rng.choice([rng.randrange(1, 20), rng.randrange(1, 500), rng.randrange(1, 200000), rng.choice([100, 1000, 500, 100000])])
        return q if rng.random() < 0.6 else -q

    def transaction(self, d):
        rng = self.rng
        notes = [rng.choice(["seen", "a longer note", "with: colon"]) for _ in range(rng.choice([0, 0, 1, 2]))]
        desc = rng.choice(DESCS)
        if rng.random() < 0.03:
            n = rng.choice(self.pool)
            return txn(d, desc, [post(n, 0, self.com[n])], notes=notes)
        n = rng.choice(self.pool)
        same = [m for m in self.pool if self.com[m] == self.com[n]]
        if "USD" in self.dec and rng.random() < 0.25:
            ns = [rng.choice(self.pool) for _ in range(2)]
            if len({self.com[x] for x in ns}) == 2:
                return txn(d, desc, [post(x, self.amount(), self.com[x]) for x in ns], notes=notes)
        k = rng.choice([2, 2, 2, 3, 4])
        posts, rest = [], 0
        for i in range(k):
            q = self.amount() if i < k - 1 else -rest
            if i == 0 and rng.random() < 0.05:
                q = 0
            rest += q
            posts.append(post(rng.choice(same), q, self.com[n]))
        if rng.random() < 0.05 and self.com[n] == "CAD":
            posts[rng.randrange(k)]["acct"] = "Unbalanced"
        if rng.random() < 0.3:
            i = rng.randrange(k)
            posts[i] = post(posts[i]["acct"])
        return txn(d, desc, posts, notes=notes)

    def files(self):
        return standard_files(self.entries)


def build(chk):
    """The program with the viewer in it, as the build of the project would make it."""
    out = os.path.join(chk.scratch, "viewer")
    rc, so, se = run(["node", os.path.join(DRIVER, "bundle.js"), JS, out], timeout=120)
    if rc != 0:
        raise CheckError("the viewer does not build: " + so + se)
    ov = os.path.join(chk.scratch, "viewer-overlay.json")
    json.dump({"Replace": {os.path.join(JS, "dist", p): os.path.join(out, p) for p in ("head.html", "body.html")}}, open(ov, "w"))
    rc, so, se = run(["go", "build", "-overlay", ov, "-o", chk.exe("coin2html"), "./cmd/coin2html"], cwd=REPO, env=go_env(), timeout=600)
    if rc != 0:
        raise CheckError("build failed: " + so + se)


def days_of(rng, g):
    out = [rng.choice(g.txns)["day"] + rng.choice([0, 0, -1, 1]) for _ in range(6)] + [g.first, g.last]
    d = date_of(rng.choice(out))
    out += [day(d.year, d.month, 1), day(d.year, 12, 31)]
    return [date_of(n).isoformat() for n in out if g.first <= n <= g.last]


def number(a):
    if a["do"] in ("start", "end"):
        a["n"] = (datetime.date.fromisoformat(a["v"]) - EPOCH).days
    if a["do"] in ("max", "depth"):
        a["n"] = int(a["v"])
    return a


def show(chk, case, d, g, rng, walk=None, actions=None):
    """Loads the export into the viewer and uses it."""
    rc, page, err = coin(chk, d, [], exe="coin2html")
    zone = rng.choice(ZONES)
    case.replay.update(commands=[["coin2html"]], zone=zone)
    if rc != 0:
        case.local.append(dict(what="the export failed", observed=err[:300]))
        return
    pf = os.path.join(d, "page.html")
    open(pf, "w", encoding="utf-8").write(page)
    job = dict(page=pf)
    if walk:
        job["walk"] = walk
    if actions:
        job["actions"] = actions
    rc, out, err = run(["node", os.path.join(DRIVER, "run.js")], stdin=json.dumps(job).encode(), env=dict(PATH=os.environ["PATH"], TZ=zone, HOME="/nonexistent"), timeout=120)
    os.remove(pf)
    if rc == "timeout":
        case.local.append(dict(what="the page does not come to rest", observed="120 s"))
        return
    if rc != 0:
        raise CheckError("the viewer does not run: " + err[:2000])
    got = json.loads(out)
    first = got["steps"][0]
    case.add("page", roots=got["roots"], obs=first["obs"])
    acts = []
    for s in got["steps"][1:] if not first["obs"]["err"] else []:
        acts.append(s["act"])
        if s["act"]["do"] == "none":
            case.local.append(dict(what="the page stops working", observed=s["obs"]["err"][:500], actions=acts))
            break
        case.add("use", act=number(dict(s["act"])), obs=s["obs"])
        chk.count("actions")
        o = s["obs"]
        if not o["err"]:
            chk.count("shown: %s%s" % (o["view"], (" " + o["agg"][0]) if o["agg"] else ""))
        chk.count("action " + s["act"]["do"])
        if s["obs"]["err"]:
            break
    case.replay["actions"] = acts
    case.weight = sum(2 + len(e["obs"].get("table", {}).get("rows", [])) // 10 for e in case.events if "obs" in e)


def load(case, g, d, rng):
    st = style(rng)
    files = g.files()
    write_files(d, files, g.dec, st)
    add_events(case, files)
    case.add("resolve")


def view_case(actions, aggregated):
    def fn(chk, case, d, rng):
        g = ViewGen(rng, big=rng.random() < (0.2 if aggregated else 0.1))
        load(case, g, d, rng)
        show(chk, case, d, g, rng, walk=dict(seed=rng.randrange(1 << 30), n=actions, dates=days_of(rng, g), aggregated=aggregated, max=["0", "1", "2", "2", "3", "5", "8"], depth=["0", "1", "2", "3", "5"]))
        keep_files(case, d)
    return fn


ASSUMPTIONS = [
    "the page runs on a small document model and stand-ins for the parts of d3 it uses (drivers/viewer); layout and geometry are not observed",
    "at most one price per pair of commodities, no balance assertions, amounts below 2^31 minor units",
    "an account is closed no later than the accounts above it",
]


INVARIANTS = "Loads Sound TotalsAddUp RegisterRight PeriodsRight ColumnsRight GroupingRight Undone DetailsRight"
BOOKS = {
    "one": [commodity("CAD"), account("Assets"), account("Assets:B"), account("Assets:B:C", closed="2020/03/01"), account("Assets:D"), account("Expenses"), account("Expenses:F"),
            account("Expenses:G"),
            txn(18262, "x", [post("Assets", 500, "CAD"), post("Assets:B", -500, "CAD")]),
            txn(18293, "x", [post("Assets:B:C", -30, "CAD"), post("Expenses:F", 20, "CAD"), post("Expenses:G", 10, "CAD")], notes=["n"]),
            txn(18307, "x", [post("Expenses:F", 15, "CAD"), post("Assets:D", -15, "CAD")]),
            txn(18307, "x", [post("Assets:B:C", 30, "CAD"), post("Assets", -30, "CAD")]),
            txn(18332, "x", [post("Expenses", 7, "CAD"), post("Assets:D", -7, "CAD")], notes=["n", "m"])],
    "two": [commodity("CAD"), commodity("USD"), price(18267, "USD", "CAD", 150), account("Assets"), account("Assets:U", "USD"), account("Income"),
            account("Income:V", "USD", closed="2020/12/31"), account("Income:W"),
            txn(18272, "x", [post("Assets:U", 100, "USD"), post("Income:V", -100, "USD")]),
            txn(18662, "x", [post("Assets:U", 40, "USD"), post("Assets", 80, "CAD")]),
            txn(18662, "x", [post("Income:W", -60, "CAD"), post("Assets", 60, "CAD")]),
            txn(18682, "x", [post("Income", 0, "CAD")], notes=["n"])],
}


class Book:
    """The ledger of MC_Viewer."""

    def __init__(self, name):
        self.entries, self.dec = json.loads(json.dumps(BOOKS[name])), {"CAD": 2, "USD": 2}

    def files(self):
        return standard_files(self.entries)


def explore(chk, book, focus, depth, emit, workers=4):
    cfg = "SPECIFICATION MCSpec\nCONSTANTS Book = \"%s\"\n Depth = %d\n Focus = \"%s\"\n Emit = %s\nINVARIANTS %s\nVIEW Seen\nCHECK_DEADLOCK FALSE\n" % (
        book, depth, focus, "TRUE" if emit else "FALSE", "Emitted" if emit else INVARIANTS)
    out = chk.model("viewer-%s-%s-%d%s" % (book, focus or "start", depth, "-sequences" if emit else ""), "MC_Viewer", cfg, workers=workers, heap="4g")
    return [(book, s) for s in emitted(out)] if emit else []


def enumerated(book, acts):
    def fn(chk, case, d, rng):
        g = Book(book)
        load(case, g, d, rng)
        show(chk, case, d, g, rng, actions=acts)
        keep_files(case, d)
    return fn


def check(chk, aggregated, focuses, more, rule):
    build(chk)
    jobs = [(b, f, 2, True) for b in BOOKS for f in focuses] + [(b, f, 2, False) for b in BOOKS for f in focuses]
    if chk.thorough:
        jobs += [(b, f, 2, e) for b in BOOKS for f in more for e in (True, False)]
    with ThreadPoolExecutor(4) as ex:
        got = list(ex.map(lambda j: explore(chk, *j, workers=2), jobs))
    scn = sorted((x for g in got for x in g), key=lambda x: json.dumps(x, sort_keys=True))
    chk.run_cases([("enumerated-%d" % i, enumerated(b, a)) for i, (b, a) in enumerate(sample(chk, scn, scale(chk, 200, 1500)))] +
                  [("walk-%d" % i, view_case(scale(chk, 25, 35), aggregated)) for i in range(scale(chk, 70, 500))])
    chk.validate("Trace_Viewer")
    return chk.finish("model_checking", rule, ASSUMPTIONS)


def c27(chk):
    return check(chk, False, ["", "register"], ["drawn", "dated"], "sequences of a user's actions enumerated by MC_Viewer on two small exports (sampled), and random ones on random ledgers; non-trivial when distinct")


def c28(chk):
    return check(chk, True, ["aggregated", "chart"], ["excluded", "carried"], "sequences of a user's actions in the aggregated views enumerated by MC_Viewer on two small exports (sampled), and random ones on random ledgers; "
                 "non-trivial when distinct")
