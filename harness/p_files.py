"""C08: files are rewritten without ever being lost.  The programs run under strace, undisturbed, with failing
system calls and killed at various points; the recorded calls are checked against FileReplace."""
import os, re, resource, shutil, signal, tempfile
from core import CheckError, run
from ledger import *
from p_ledger import LEDGER_ASSUMPTIONS, sample, scale
from p_rewrite import NASTY_NOTES, TxnFiles, modify_args, modify_query, snapshot

CALLS = "openat,open,creat,write,pwrite64,writev,lseek,rename,renameat,renameat2,unlink,unlinkat,link,linkat,symlink,symlinkat,ftruncate,truncate,fsync,fdatasync,close,read,copy_file_range,sendfile"
STR = re.compile(r'"((?:\\x[0-9a-f]{2})*)"(\.\.\.)?')


def unhex(s):
    return bytes.fromhex(s.replace("\\x", "")).decode("latin-1")


def parse_strace(path):
    """The completed calls in the order of their completion: (name, args text, strings, result, injected)."""
    pending, calls = {}, []
    for line in open(path, encoding="utf-8", errors="replace"):
        m = re.match(r"(\d+)\s+(.*)$", line.rstrip("\n"))
        if not m:
            continue
        pid, rest = m.groups()
        if rest.endswith("<unfinished ...>"):
            pending[pid] = rest[: -len("<unfinished ...>")]
            continue
        r = re.match(r"<\.\.\. (\w+) resumed>(.*)$", rest)
        if r:
            rest = pending.pop(pid, r.group(1) + "(") + r.group(2)
        c = re.match(r"(\w+)\((.*)\)\s+=\s+(-?\d+|\?)(.*)$", rest)
        if not c or c.group(3) == "?":
            continue
        name, args, ret, tail = c.groups()
        calls.append((name, args, [unhex(s) for s, _ in STR.findall(args)], int(ret), "INJECTED" in tail))
    return calls


class Follow:
    """Turns system calls into events of the trace: those on files in the given directories."""

    def __init__(self, case, roots, cwd):
        self.case, self.roots, self.cwd = case, roots, cwd
        self.dirs, self.fds, self.unknown = {}, {}, False

    def path(self, args, s, k=0):
        if s.startswith("/"):
            return os.path.normpath(s)
        at = re.findall(r"(AT_FDCWD|\b\d+)(?=(?:<[^>]*>)?, \")", args)
        base = self.cwd
        if at and at[min(k, len(at) - 1)] != "AT_FDCWD":
            base = self.dirs.get(int(at[min(k, len(at) - 1)]), self.cwd)
        return os.path.normpath(os.path.join(base, s))

    def ours(self, p):
        return any(p.startswith(r + "/") for r in self.roots)

    def short(self, p):
        for r in self.roots:
            if p.startswith(r + "/"):
                return p[len(r) + 1:] if r == self.roots[0] else "TMP/" + p[len(r) + 1:]
        return p

    def call(self, name, args, strs, ret, injected):
        add = self.case.add
        fd0 = re.match(r"(\d+)", args)
        fd0 = int(fd0.group(1)) if fd0 else -1
        if ret < 0:
            if injected:
                add("fail")
            return
        if name in ("openat", "open", "creat"):
            p = self.path(args, strs[0])
            self.dirs[ret] = p
            writable = name == "creat" or "O_WRONLY" in args or "O_RDWR" in args
            if self.ours(p) and writable:
                self.fds[ret] = p
                add("open", path=self.short(p), fd=ret, trunc=name == "creat" or "O_TRUNC" in args, app="O_APPEND" in args)
            return
        if name in ("rename", "renameat", "renameat2", "link", "linkat", "symlink", "symlinkat"):
            a, b = self.path(args, strs[0]), self.path(args, strs[1], 1)
            if self.ours(a) and self.ours(b):
                add("link" if "link" in name else "rename", a=self.short(a), b=self.short(b))
            elif self.ours(a) or self.ours(b):
                self.unknown = True
            return
        if name in ("unlink", "unlinkat"):
            p = self.path(args, strs[0])
            if self.ours(p):
                add("unlink", a=self.short(p))
            return
        if name == "truncate":
            p = self.path(args, strs[0])
            if self.ours(p):
                add("trunc", path=self.short(p), size=int(args.rsplit(",", 1)[1]))
            return
        if fd0 not in self.fds and name not in ("copy_file_range", "sendfile"):
            return
        if name == "write":
            add("write", fd=fd0, chunk=strs[0][:ret] if strs else "")
        elif name == "writev":
            add("write", fd=fd0, chunk="".join(strs)[:ret])
        elif name == "pwrite64":
            add("writeat", fd=fd0, pos=int(args.rsplit(",", 1)[1]), chunk=strs[0][:ret])
        elif name == "lseek":
            add("seek", fd=fd0, pos=ret)
        elif name == "ftruncate":
            add("truncfd", fd=fd0, size=int(args.rsplit(",", 1)[1]))
        elif name in ("fsync", "fdatasync"):
            add("sync", fd=fd0)
        elif name == "close":
            self.fds.pop(fd0, None)
            add("close", fd=fd0)
        elif name in ("copy_file_range", "sendfile") and any(int(n) in self.fds for n in re.findall(r"\b(\d+)(?=<)", args)):
            self.unknown = True         # content that is not in the record


def contents(snap):
    return [dict(path=n, content=b.decode("latin-1")) for n, b in sorted(snap.items())]


_strace = None


def strace_works(chk):
    global _strace
    with chk.lock:
        if _strace is None:
            f = os.path.join(chk.scratch, "strace-test")
            rc = run(["strace", "-f", "-o", f, "-e", "trace=write", "-e", "inject=write:error=EIO:when=1", "/bin/true"])[0] if shutil.which("strace") else 1
            _strace = rc == 0 and os.path.exists(f)
            if not _strace:
                chk.notes.append("strace cannot be used: only size limits and unwritable directories are tried, without following system calls")
    return _strace


def rewriting(rng):
    """A scenario: what to run, on which files, and which of them cannot be processed."""
    return rng.choice(["format", "format", "modify", "modify", "test"])


def make_files(rng, d, kind):
    """Fills d; returns (arguments, names of the files to be rewritten)."""
    f = TxnFiles(rng, d, includes=0, txns=rng.choice([1, 3, 10, 40]), notes=0.5, tags=0.5)
    names = [f.name]
    text = open(os.path.join(d, f.name), encoding="utf-8").read()
    if kind == "test":
        lines = text.split("\n")
        cmds = ["balance", "register A", "balance -z", "bal -l 1", "accounts", "register", "commodities", "stats"]
        n = rng.choice([1, 1, 2, 4])
        for _ in range(n):
            clause = ["", "test " + rng.choice(cmds), "end test", ""]
            if rng.random() < 0.3:
                clause += ["; " + rng.choice(NASTY_NOTES)] * rng.choice([1, 50])
            at = len(lines) if rng.random() < 0.5 else 0
            lines[at:at] = clause
        heads = "".join(open(os.path.join(d, n), encoding="utf-8").read() + "\n" for n in f.names[:-1])
        body = heads + "\n".join(lines) + "\n"
        if rng.random() < 0.5:
            # the tests of a second file, included by the first
            body = "include more.coin\n\n" + body if rng.random() < 0.5 else body + "\n\ninclude more.coin\n"
            with open(os.path.join(d, "more.coin"), "w") as h:
                h.write("\ntest accounts\nend test\n" + "; filler\n" * rng.choice([0, 1000]) + "\ntest commodities\nend test\n")
        with open(os.path.join(d, f.name), "w", encoding="utf-8") as h:
            h.write(body)
        return ["test"], names
    for i in range(rng.choice([0, 0, 1, 2])):
        n = "more%d.coin" % i
        t = text if rng.random() < 0.6 else text + "\n" + text
        with open(os.path.join(d, n), "w", encoding="utf-8") as h:
            h.write(t)
        names.insert(rng.randrange(len(names) + 1), n)
    r = rng.random()
    if r < 0.25:
        # one that cannot be processed
        n = rng.choice(names)
        t = open(os.path.join(d, n), encoding="utf-8").read()
        bad = rng.choice(["2020/13/45 bad date\n", "2020/01/01 x\n  Nowhere:At:All  10 ZZZ\n  A  -10 ZZZ\n", "what is this\n", "2020/01/01 x\n  A  10\n",
                          "include missing.coin\n", "2020/01/01 " + "long " * 15000 + "\n", "; " + "x" * 70000 + "\n"])
        at = rng.choice([0, len(t)])
        t = t[:at].rstrip("\n") + ("\n\n" if at else "") + bad + "\n" + t[at:]
        with open(os.path.join(d, n), "w", encoding="utf-8") as h:
            h.write(t)
    args = ["format", "-i"] if kind == "format" else ["modify"] + modify_args(modify_query(rng, f.g))
    if kind == "format" and rng.random() < 0.3:
        args.insert(1, "-t")
    return args, names


def copy_of(base, d):
    shutil.copytree(base, d)
    return d


def c08_case(chk, case, d, rng):
    kind = rewriting(rng)
    base = os.path.join(d, "base")
    os.mkdir(base)
    args, names = make_files(rng, base, kind)
    files = snapshot(base)
    case.replay["files"] = {n: b.decode("utf-8", "replace") for n, b in files.items()}
    case.replay["commands"] = [["coin"] + args + names]
    wanted, expected, k = {}, True, 0

    def fresh():
        nonlocal k
        k += 1
        return copy_of(base, os.path.join(d, "run%d" % k))
    for n in names:
        w = fresh()
        rc, out, err = run([chk.exe("coin")] + args + [os.path.join(w, n)], cwd=w, env=db_env(w))
        if rc == 0:
            after = snapshot(w)
            for p in (after if kind == "test" else [n]):
                if p in files and (p == n or after[p] != files[p]):
                    wanted[p] = after[p]
        else:
            expected = False
        shutil.rmtree(w)
    case.expected = expected
    chk.count("processable" if expected else "not processable")
    tmp = tempfile.mkdtemp(prefix="verif-c08-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else d)
    start = dict(files=contents(files), wanted=[dict(path=p, content=b.decode("latin-1")) for p, b in sorted(wanted.items())])
    relative = rng.random() < 0.4

    def one(inject=None, undisturbed=False, preexec=None, traced=True, what=""):
        w = fresh()
        if preexec:
            os.chmod(d, 0o755)
        env = db_env(w, TMPDIR=tmp, GOMAXPROCS="1")
        argv = [chk.exe("coin")] + args + [n if relative else os.path.join(w, n) for n in names]
        log = os.path.join(d, "strace%d" % k)
        if traced:
            argv = ["strace", "-o", log, "-f", "-xx", "-s", "10000000", "-e", "trace=" + CALLS] + (["-e", "inject=" + inject] if inject else []) + argv
        rc, out, err = run(argv, cwd=w, env=env, preexec=preexec)
        chk.count("runs")
        case.add("start", **start)
        calls = parse_strace(log) if traced else []
        if traced:
            f = Follow(case, [w, tmp], w)
            first = len(case.events)
            for c in calls:
                f.call(*c)
            if f.unknown:
                del case.events[first:]     # judged by the files alone
                chk.count("not followed")
            os.unlink(log)
        case.add("exit", status=rc if isinstance(rc, int) else 99, files=contents(snapshot(w)), undisturbed=undisturbed, expected=expected, what=what)
        shutil.rmtree(w)
        for t in os.listdir(tmp):
            os.unlink(os.path.join(tmp, t))
        return rc, calls
    try:
        if strace_works(chk):
            rc, calls = one(undisturbed=True)
            count = {}
            for c in calls:
                count[c[0]] = count.get(c[0], 0) + 1
            points = []
            for call in sorted(count):
                for i in range(1, count[call] + 1):
                    points.append("%s:signal=KILL:when=%d" % (call, i))
                    for e in dict(write=["ENOSPC", "EDQUOT"], fsync=["EIO", "ENOSPC"], close=["EIO"], openat=["EACCES", "ENOSPC"], read=["EIO"]).get(call, ["EIO", "EACCES"]):
                        points.append("%s:error=%s:when=%d%s" % (call, e, i, rng.choice(["", "+"]) if call == "write" else ""))
            # the interesting calls are those that change files
            points.sort(key=lambda p: (p.split(":")[0] in ("read", "openat", "close"), rng.random()))
            few = scale(chk, 9, 40)
            points = points[:few] + sample_of(rng, points[few:], scale(chk, 5, 30))
            for p in points:
                rc, calls = one(inject=p, what=p)
                chk.count("killed" if rc in (-9, 137) else "faults taking effect" if any(c[4] for c in calls) else "faults without effect")
        else:
            one(undisturbed=True, traced=False)
        largest = max(len(b) for b in list(wanted.values()) + [b"x"])
        for lim in sorted({0, largest // 2, largest - 1, rng.randrange(largest + 1)})[:scale(chk, 2, 4)]:
            one(preexec=lambda: (signal.signal(signal.SIGXFSZ, signal.SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (max(lim, 0), max(lim, 0)))), traced=False, what="file size limit %d" % lim)
        if rng.random() < 0.3:
            one(preexec=lambda: (os.setgroups([]), os.setgid(65534), os.setuid(65534)), traced=False, what="unwritable directory")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    case.weight = 5 + sum(1 + len(e.get("chunk", "")) // 500 + sum(len(f["content"]) for f in e.get("files", [])) // 2000 for e in case.events)


def sample_of(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


MC_FILES = ('SPECIFICATION MCSpec\nCONSTANTS\n Files = {%s}\n Chunks = %d\n Sound = "%s"\nINVARIANTS NeverLost NeverLostOnDisk OthersUntouched NothingToBeRead Ends\nCHECK_DEADLOCK FALSE\n')


def c08(chk):
    chk.build("coin")
    names = ", ".join('"f%d"' % i for i in range(scale(chk, 3, 6)))
    chk.model("replacing", "MC_FileReplace", MC_FILES % (names, scale(chk, 4, 9), "yes"))
    for s in ("nosync", "inplace", "ignore"):
        chk.model("replacing-" + s, "MC_FileReplace", MC_FILES % ('"a", "b"', 3, s), violates=True)
    chk.run_cases([("rewrite-%d" % i, c08_case) for i in range(scale(chk, 90, 700))])
    chk.validate("Trace_FileReplace")
    return chk.finish("fault_injection" if False else "model_checking",
                      "coin format -i, modify and test (filling results) on 1 to 3 random files each, undisturbed and with failing or killing system calls at the first points that change files and a sample of the others, "
                      "with file size limits and in unwritable directories; every state of the files along the recorded system calls is judged; non-trivial when distinct",
                      LEDGER_ASSUMPTIONS + ["the operating system performs the recorded calls as FileReplace describes; a crash of the machine keeps at least what was synced and the order of a rename after a sync of its file"])
