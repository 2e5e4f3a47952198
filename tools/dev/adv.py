#!/usr/bin/env python3
"""adv.py [-j N] FILE [NAME..]: FILE holds B = [(name, checks, [(file, old, new)..])..]; makes a patch of each edit, builds it and runs the stable
tests in a copy of /repo and, if they pass, runs the checks against it (nstry.py)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/tools")
sys.path.insert(0, "/verif/tools/dev")
import seed, nstry
OUT = "/tmp/adv"


def one(b):
    name, checks, edits = b
    d = "/tmp/advwt/" + name
    seed.copy(d)
    subprocess.call(['git', '-c', 'user.name=x', '-c', 'user.email=x', 'commit', '-qam', 'wip'], cwd=d, stdout=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return print(name, "EDIT", f, s.count(old), repr(old)[:60], flush=True)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
        r = seed.script("build.sh", d)
        if r.returncode:
            return print(name, "BUILD", r.stdout[-300:], flush=True)
        b = json.load(open("/opt/vp/BASELINE.json"))
        base = set(b.get("stable") or b.get("passed") or b.get("tests"))
        missing = base - seed.passed(d)
        if missing:
            return print(name, "TESTS", sorted(missing)[:2], flush=True)
        patch = os.path.join(OUT, name + ".patch")
        open(patch, "w").write(diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    nstry.attempt(patch + ":" + checks)


if __name__ == "__main__":
    args, j = [a for a in sys.argv[1:] if a != "--first"], 2
    if args[0] == "-j":
        j, args = int(args[1]), args[2:]
    os.makedirs(OUT, exist_ok=True)
    ns = {}
    exec(open(args[0]).read(), ns)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(one, [b for b in ns["B"] if len(args) == 1 or b[0] in args[1:]]))
