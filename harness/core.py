"""Machinery shared by all checks: building the programs from /repo, running scenarios, validating the
recorded traces with TLC, model checking, evidence and verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
MODULE = "github.com/mkobetic/coin"
TLC_JARS = "/opt/veriftools/tla/tla2tools.jar"
JOBS = 8


class CheckError(Exception):
    """The check itself could not do its work (not a violation)."""


def go_env():
    env = dict(os.environ)
    env.update(TZ="UTC", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0",
               GOCACHE=env.get("GOCACHE", "/root/.cache/go-build"))
    env.pop("COINDB", None)
    return env


def run(argv, cwd=None, env=None, stdin=None, timeout=60, preexec=None):
    """Runs a program; returns (exit status, stdout, stderr).  A hang shows as exit status 'timeout'."""
    try:
        p = subprocess.run(argv, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=preexec)
        return p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "surrogateescape")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


# What the name of a scenario's directory ends with: any directory can hold a ledger.
PLACES = ["", "", "", "", "", "", " b", "[1-2]", "$HOME", "a:1", "*", "é?", "'&<c>", "%d"]


class Case:
    """One scenario: its trace (list of events) and what is needed to replay it by hand."""

    def __init__(self, name):
        self.name, self.events, self.replay = name, [], {}
        self.nontrivial = True
        self.local = []          # differences found while reading output that is not in the expected form

    def add(self, event, **kw):
        kw["event"] = event
        self.events.append(kw)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.thorough = self.tier == "thorough"
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bin = os.path.join(self.scratch, "bin")
        os.mkdir(self.bin)
        os.chmod(self.scratch, 0o755)
        self.cases, self.violations, self.models, self.notes = [], [], [], []
        self.counters = {}
        self.lock = threading.Lock()
        self.stats = dict(states=0, transitions=0)
        self.actions = {}

    def count(self, what, n=1):
        with self.lock:
            self.counters[what] = self.counters.get(what, 0) + n

    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, "/".join(map(str, key))))

    # -- building ---------------------------------------------------------------------------------
    def clock(self):
        """Go files to build with, so that the programs take PRETEND_NOW for the current time (in seconds since 1970)."""
        root = run(["go", "env", "GOROOT"], cwd=REPO, env=go_env())[1].strip()
        src = os.path.join(root, "src/time/time.go")
        text = open(src).read()
        head = "\nfunc Now() Time {\n"
        if text.count(head) != 1:
            raise CheckError("time.Now is not what it was: " + src)
        ov = os.path.join(self.scratch, "clock")
        os.makedirs(ov, exist_ok=True)
        open(os.path.join(ov, "time.go"), "w").write(text.replace(head, head + "\tif pretendNow != 0 {\n\t\treturn Time{0, pretendNow + unixToInternal, Local}\n\t}\n"))
        open(os.path.join(ov, "pretend.go"), "w").write("""package time

import "syscall"

var pretendNow = func() (n int64) {
	s, _ := syscall.Getenv("PRETEND_NOW")
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	return n
}()
""")
        return {src: os.path.join(ov, "time.go"), os.path.join(root, "src/time/pretend.go"): os.path.join(ov, "pretend.go")}

    def build(self, *names):
        env = go_env()
        clock = self.clock()
        jobs = []
        for n in names:
            files = dict(clock)
            if n == "coin2html":
                ov = os.path.join(self.scratch, "overlay")
                os.makedirs(ov, exist_ok=True)
                # The viewer (built by node) is not in the tree: embed small stand-ins of it instead.
                for part in ("head", "body"):
                    f = os.path.join(ov, part + ".html")
                    open(f, "w").write("<%s-of-the-viewer/>\n" % part)
                    files[os.path.join(REPO, "cmd/coin2html/js/dist", part + ".html")] = f
            js = os.path.join(self.scratch, "overlay-%s.json" % n)
            json.dump({"Replace": files}, open(js, "w"))
            jobs.append(["go", "build", "-o", os.path.join(self.bin, n), "-overlay", js, "./cmd/" + n])
        for args in jobs:
            rc, out, err = run(args, cwd=REPO, env=env, timeout=600)
            if rc != 0:
                raise CheckError("build failed: %s\n%s%s" % (" ".join(args), out, err))

    def build_driver(self, name, src_dir, pkg, extra=()):
        """Builds a main package from /verif laid over a (non-existing) package directory of the module."""
        env = go_env()
        files = {}
        for f in sorted(os.listdir(src_dir)):
            if f.endswith(".go"):
                files[os.path.join(REPO, pkg, f)] = os.path.join(src_dir, f)
        js = os.path.join(self.scratch, name + "-overlay.json")
        json.dump({"Replace": files}, open(js, "w"))
        args = ["go", "build", "-overlay", js, "-o", os.path.join(self.bin, name)] + list(extra) + ["./" + pkg]
        rc, out, err = run(args, cwd=REPO, env=env, timeout=600)
        if rc != 0:
            raise CheckError("driver build failed: %s\n%s%s" % (" ".join(args), out, err))

    def exe(self, n):
        return os.path.join(self.bin, n)

    # -- running scenarios ------------------------------------------------------------------------
    def run_cases(self, makers, budget=None):
        """makers: list of (name, function(check, case, dir, rng)); run in parallel, each in its own directory."""
        budget = budget or (420 if not self.thorough else 560)
        end = time.time() + budget
        base = os.path.join(self.scratch, "cases")
        os.makedirs(base, exist_ok=True)
        n0 = len(self.cases)

        def one(i_nm):
            i, (name, fn) = i_nm
            if time.time() > end:
                return None
            d = os.path.join(base, "%05d" % (n0 + i) + PLACES[zlib.crc32(b"%d" % (n0 + i)) % len(PLACES)])
            os.mkdir(d)
            case = Case(name)
            try:
                case.events = [dict(event="begin", case=name)]
                fn(self, case, d, self.rng(name))
            finally:
                shutil.rmtree(d, ignore_errors=True)
            return case

        with ThreadPoolExecutor(JOBS) as ex:
            got = list(ex.map(one, enumerate(makers)))
        done = [c for c in got if c is not None]
        if len(done) < len(makers):
            self.notes.append("%d of %d scenarios not run for lack of time" % (len(makers) - len(done), len(makers)))
        self.cases += done
        if os.environ.get("VERIF_DEBUG"):
            print("scenarios run: %.1f s" % (time.time() - self.start))
        return done

    # -- TLC --------------------------------------------------------------------------------------
    def tlc(self, name, spec, cfg, extra=(), heap="2g", timeout=800, workers=1, props=()):
        """Runs TLC in a scratch copy of the specification directory; returns (exit status, output)."""
        d = os.path.join(self.scratch, "tlc-" + name)
        shutil.copytree(SPEC, d)
        for p in props:
            for f in os.listdir(p):
                shutil.copy(os.path.join(p, f), d)
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write(cfg)
        argv = ["java", "-Djava.io.tmpdir=" + self.scratch, "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
                "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dtlc2.TLC.ide=none",
                "-cp", tlc_classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir",
                os.path.join(d, "meta"), "-config", name + ".cfg"] + list(extra) + [spec + ".tla"]
        rc, out, err = run(argv, cwd=d, timeout=timeout, env=dict(os.environ, LC_ALL="C.UTF-8"))
        shutil.rmtree(d, ignore_errors=True)
        return rc, out + err

    def model(self, name, spec, cfg, violates=False, **kw):
        """Model checks: the invariants must hold on the specification itself; or, for a specification
        of a faulty system (violates), must be violated."""
        t0 = time.time()
        rc, out = self.tlc("mc-" + name, spec, cfg, **kw)
        if violates:
            if not re.search(r"Invariant \w+ is violated", out):
                raise CheckError("model %s: no violation found\n%s" % (name, out[-4000:]))
            rc, out = 0, out + "No error has been found"
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or not ("No error has been found" in out or "-simulate" in kw.get("extra", ())):
            raise CheckError("model %s: TLC exit %s\n%s" % (name, rc, out[-4000:]))
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            ms = re.findall(r"Progress.*?([\d,]+) states checked", out) or re.findall(r"([\d,]+) states checked", out)
            gen = int(ms[-1].replace(",", "")) if ms else 0
        with self.lock:
            self.stats["states"] += dist
            self.stats["transitions"] += gen
            self.models.append(dict(model=name, spec=spec, states_generated=gen, distinct_states=dist,
                                    wall_s=round(time.time() - t0, 1)))
        return out

    def validate(self, trace_spec, cases=None, shards=JOBS, constants=""):
        """Checks the recorded traces against the specification."""
        cases = self.cases if cases is None else cases
        for c in cases:
            for d in c.local:
                self.violation(c, d)
        cases = [c for c in cases if len(c.events) > 1]
        if not cases:
            return
        total = sum(weight(c) for c in cases)
        buckets = [[] for _ in range(min(shards, len(cases)))]
        loads = [0] * len(buckets)
        for c in sorted(cases, key=weight, reverse=True):
            i = loads.index(min(loads))
            buckets[i].append(c)
            loads[i] += weight(c)

        def one(i):
            lines, owner = [], []
            for c in buckets[i]:
                for k, e in enumerate(c.events):
                    lines.append(json.dumps(e, ensure_ascii=False))
                    owner.append((c, k))
            tf = os.path.join(self.scratch, "%s-%d.ndjson" % (trace_spec, i))
            with open(tf, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write("\n".join(lines) + "\n")
            cfg = 'SPECIFICATION TraceSpec\nCONSTANT TraceFile = "%s"\n%s\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' % (tf, constants)
            rc, out = self.tlc("%s-%d" % (trace_spec, i), trace_spec, cfg)
            return rc, out, owner

        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(one, range(len(buckets))))
        for rc, out, owner in results:
            rejects = parse_rejects(out)
            if os.environ.get("VERIF_DEBUG"):
                print(re.findall(r"Finished in.*", out), len(owner))
            for r in rejects:
                c, k = owner[r["line"] - 1]
                self.violation(c, dict(event=k, what=r["what"], expected=r["expected"], observed=r["observed"]))
            if rc != 0:
                if os.environ.get("VERIF_DEBUG"):
                    open("/tmp/tlc-debug.out", "w").write(out)
                last = re.findall(r"/\\ l = (\d+)", out)
                deep = re.findall(r"depth of the complete state graph search is (\d+)", out)
                if not last and deep and "Postcondition TraceAccepted" in out:
                    last = deep                        # the event that is no step of the specification
                at = ""
                if last:
                    i = min(int(last[-1]), len(owner)) - 1
                    at = " at event %d of %s: %s" % (owner[i][1], owner[i][0].name, json.dumps(owner[i][0].events[owner[i][1]])[:600])
                broken = re.search(r"Java ran out of memory|OutOfMemory|StackOverflow|timed out", out)
                if not rejects and last and not broken and re.search(r"Attempted to|The exception was a|evaluating|[Pp]ostcondition", out):
                    # what was observed is outside of what the specification can express, or no step of it
                    c, k = owner[i]
                    self.violation(c, dict(event=k, what="what was observed is no behaviour of the specification", expected="", observed=re.sub(r"\s+", " ", "".join(
                        re.findall(r"Error: .*(?:\n.*){0,3}", out)))[:600]))
                    continue
                if not rejects:
                    raise CheckError("trace validation failed to run (TLC exit %s)%s\n%s" % (rc, at, out[-3000:]))
                self.notes.append("TLC exit %s after a rejection%s" % (rc, at))
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
            if m:
                self.stats["transitions"] += int(m[-1][0].replace(",", ""))
                self.stats["states"] += int(m[-1][1].replace(",", ""))
        self.count("traces", len(cases))
        self.count("events", sum(len(c.events) for c in cases))

    # -- verdicts ---------------------------------------------------------------------------------
    def violation(self, case, detail):
        for k in known_findings(self.prop):
            if k.get("status") == "known" and finding_matches(k, case, detail):
                with self.lock:
                    self.counters.setdefault("known", 0)
                    self.counters["known"] += 1
                    if k not in self.models:
                        pass
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        with self.lock:
            n = len(self.violations)
            path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, n))
            self.violations.append(path)
        if n < 20:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, case=case.name, seed=self.seed, tier=self.tier, difference=detail,
                               replay=case.replay, trace=case.events), f, indent=1, default=str)
            short = {k: (v if len(str(v)) < 600 else str(v)[:600] + "...") for k, v in detail.items()}
            print("  difference in %s: %s" % (case.name, json.dumps(short, default=str)))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))

    def finish(self, level, rule, assumptions=(), samples=None, extra=None):
        cov = dict(states=self.stats["states"], transitions=self.stats["transitions"],
                   traces_validated_against_impl=self.counters.get("traces", 0),
                   events_validated=self.counters.get("events", 0),
                   evaluations=len(self.cases),
                   distinct_nontrivial=len({json.dumps(c.events[1:], sort_keys=True, default=str) for c in self.cases if c.nontrivial}),
                   rule=rule, models=self.models,
                   counters={k: v for k, v in sorted(self.counters.items()) if k not in ("traces", "events")},
                   samples=samples if samples is not None else [sample_of(c) for c in self.cases[:: max(1, len(self.cases) // 3)][:3]])
        if self.notes:
            cov["notes"] = self.notes
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier="thorough" if self.thorough else "quick", seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.start, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d scenarios, %d events validated, %d states, %d violations, %.1f s" % (
            self.prop, len(self.cases), self.counters.get("events", 0), self.stats["states"], len(self.violations), time.time() - self.start))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def weight(c):
    return getattr(c, "weight", None) or 5 + sum(3 if e["event"] in ("aggregate", "export") else 1 for e in c.events)


def sample_of(c):
    s = json.dumps(c.events, default=str)
    return dict(case=c.name, trace=c.events if len(s) < 6000 else s[:6000] + "...")


_cp = None


def tlc_classpath():
    global _cp
    if _cp is None:
        w = shutil.which("tlc")
        txt = open(os.path.realpath(w)).read() if w else ""
        m = re.search(r"-cp\s+\"?([^\s\"]+)", txt)
        _cp = m.group(1) if m else TLC_JARS
    return _cp


def parse_rejects(out):
    rejects = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"REJECT '):
            body = line[len('"REJECT '):-1]
            try:
                r = json.loads(body)
            except ValueError:
                try:
                    r = json.loads(json.loads('"' + body + '"'))
                except ValueError:
                    m = re.search(r'line\\*":\s*(\d+)', body)
                    r = dict(line=int(m.group(1)) if m else 1, what=body, expected="", observed="")
            rejects.append(r)
    return rejects


def known_findings(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop]


def finding_matches(k, case, detail):
    """A finding is identified by text that must occur in the scenario and in the difference."""
    text = json.dumps(detail, default=str) + json.dumps(case.replay, default=str)
    return bool(k.get("match")) and all(m in text for m in k["match"])


def main(prop, fn):
    chk = Check(prop)
    try:
        rc = fn(chk)
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 2 if not chk.violations else 1
    except Exception:
        traceback.print_exc()
        print("CHECK ERROR: unexpected failure of the check")
        rc = 2 if not chk.violations else 1
    finally:
        chk.close()
    sys.stdout.flush()
    return rc
