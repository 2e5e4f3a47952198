#!/usr/bin/env python3
"""campaign.py filter N FILE...   samples N mutants per file (0: all) and keeps those that build and pass the stable tests (in /tmp/camp/alive)
   campaign.py check [K]          runs the quick checks of the file of each survivor until one catches it (at most K survivors; results in /tmp/camp/results)
Mutated copies of /repo stand at /repo in private mount namespaces."""
import hashlib, json, os, queue, random, shutil, subprocess, sys, threading
CAMP = "/tmp/camp"
CHECKS = {
    "account.go": "C02,C20,C06,C26,C24,C25,C05", "amount.go": "C11,C01,C10,C05,C24,C25", "check/check.go": "C01,C25,C16", "cmd/coin/accounts.go": "C26", "cmd/coin/balance.go": "C03,C17",
    "cmd/coin/commodities.go": "C26", "cmd/coin/format.go": "C07,C08", "cmd/coin/main.go": "C18,C03,C04", "cmd/coin/modify.go": "C09,C08", "cmd/coin/postings.go": "C04",
    "cmd/coin/register.go": "C04,C05,C17", "cmd/coin/stats.go": "C19", "cmd/coin/tags.go": "C17,C18", "cmd/coin/test.go": "C23,C08", "cmd/coin/totals.go": "C05",
    "cmd/coin/utils.go": "C03,C04,C05", "cmd/coin2html/main.go": "C24", "cmd/csv2coin/main.go": "C15,C13", "cmd/csv2coin/rules.go": "C15,C13", "cmd/gc2coin/main.go": "C22",
    "cmd/gen2coin/dates.go": "C21", "cmd/gen2coin/main.go": "C21", "cmd/gen2coin/rule.go": "C21", "cmd/gen2coin/rules_personal.go": "C21", "cmd/ofx2coin/bmo.go": "C14",
    "cmd/ofx2coin/main.go": "C14,C13", "coin.go": "C16,C06,C01,C02,C10,C18", "commodity.go": "C10,C25,C26,C24,C01", "date.go": "C12,C25,C05", "gnucash/account.go": "C22", "gnucash/commodity.go": "C22",
    "gnucash/gnucash.go": "C22", "gnucash/price.go": "C22", "gnucash/split.go": "C22", "gnucash/transaction.go": "C22", "include.go": "C16,C25", "parser.go": "C25,C23",
    "posting.go": "C20,C07,C25,C24,C01", "pow10.go": "C11,C10", "price.go": "C25,C26,C10,C24", "rex/rex.go": "C13,C25", "rules.go": "C13", "tags.go": "C17,C09", "test.go": "C23,C25",
    "transaction.go": "C07,C25,C14,C09,C20,C19,C24,C01"}
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sandbox(w, script, timeout):
    d = "%s/w%d" % (CAMP, w)
    pre = "ulimit -v 16000000; mount --bind %s/repo /repo; mount --bind %s/verif /verif; mkdir -p /verif/evidence %s/ev; mount --bind %s/ev /verif/evidence; cd /repo; export TMPDIR=%s/tmp; mkdir -p $TMPDIR; " % (d, CAMP, d, d, d)
    try:
        return subprocess.run(["timeout", "-k", "5", str(timeout), "unshare", "-m", "bash", "-c", pre + script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace")
    finally:
        for x in os.listdir(d + "/tmp") if os.path.isdir(d + "/tmp") else ():
            shutil.rmtree(d + "/tmp/" + x, ignore_errors=True)


def worker(w, jobs, fn):
    d = "%s/w%d" % (CAMP, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    while True:
        try:
            m = jobs.get_nowait()
        except queue.Empty:
            break
        p = d + "/repo/" + m["file"]
        src = open("/repo/" + m["file"], "rb").read()
        open(p, "wb").write(src[:m["start"]] + m["to"].encode() + src[m["end"]:])
        try:
            fn(w, m)
        except Exception as e:
            print("error", m, e, flush=True)
        open(p, "wb").write(src)
    shutil.rmtree(d, ignore_errors=True)


def parallel(n, todo, fn):
    jobs = queue.Queue()
    for m in todo:
        jobs.put(m)
    ts = [threading.Thread(target=worker, args=(w, jobs, fn)) for w in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


lock = threading.Lock()


def ident(m):
    return hashlib.sha1(json.dumps([m["file"], m["start"], m["end"], m["to"]]).encode()).hexdigest()[:10]


def filter_one(w, m):
    d = "%s/w%d" % (CAMP, w)
    r = sandbox(w, "bash /opt/vp/build.sh >/dev/null 2>&1 || exit 9; timeout 100 bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1; exit 0" % d, 150)
    st = "dead"
    if r.returncode == 9:
        st = "nobuild"
    elif r.returncode == 0 and os.path.exists(d + "/out.json"):
        o = json.load(open(d + "/out.json"))
        ok = set(o.get("passed", []))
        st = "alive" if STABLE <= ok else "killed"
        os.remove(d + "/out.json")
    with lock:
        m["status"] = st
        with open(CAMP + "/filtered", "a") as f:
            f.write(json.dumps(m) + "\n")


def check_one(w, m):
    caught, out = None, []
    for c in CHECKS[m["file"]].split(","):
        r = sandbox(w, "cd /verif; timeout 600 python3 tools/dev/quick.py " + c, 620)
        out.append("%s:%d" % (c, r.returncode))
        if r.returncode != 0 and not (r.returncode == 1 and "VIOLATION" in r.stdout):
            out.append(r.stdout[-300:])
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            caught = c
            break
    with lock:
        m.update(caught=caught, out=out)
        with open(CAMP + "/results", "a") as f:
            f.write(json.dumps(m) + "\n")
        if not caught:
            print("MISSED", m["id"], m["file"], m["line"], m["op"], repr(m["from"]), "->", repr(m["to"]), out, flush=True)


def load(name):
    p = CAMP + "/" + name
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


if __name__ == "__main__":
    os.makedirs(CAMP, exist_ok=True)
    if sys.argv[1] == "filter":
        n = int(sys.argv[2])
        done = {m["id"] for m in load("filtered")}
        todo = []
        for f in sys.argv[3:] or sorted(CHECKS):
            ms = [dict(json.loads(l), file=f) for l in subprocess.check_output(["/tmp/mutate", "/repo/" + f], text=True).splitlines()]
            r = random.Random(f)
            r.shuffle(ms)
            for m in ms[:n or None]:
                m["id"] = ident(m)
                if m["id"] not in done:
                    todo.append(m)
        random.Random(1).shuffle(todo)
        print(len(todo), "mutants", flush=True)
        parallel(int(os.environ.get("J", "6")), todo, filter_one)
    else:
        done = {m["id"] for m in load("results")}
        todo = [m for m in load("filtered") if m["status"] == "alive" and m["id"] not in done]
        random.Random(2).shuffle(todo)
        if len(sys.argv) > 2:
            todo = todo[:int(sys.argv[2])]
        print(len(todo), "survivors", flush=True)
        parallel(int(os.environ.get("J", "3")), todo, check_one)
