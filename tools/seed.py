#!/usr/bin/env python3
"""seed.py new ID: makes /tmp/seed/ID, a copy of /repo to edit.
seed.py take ID: the difference becomes /verif/seeded/ID/patch.diff.
seed.py confirm ID...: builds, runs the stable tests and the demo with and without the patch, in a copy.
seed.py try ID [CHECK..]: applies the patch to /repo, runs the checks (default: the one of its property), undoes it."""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    assert sh("cp -a /repo %s" % d).returncode == 0


def script(name, d, args=""):
    s = {}
    for f in ("build.sh", "test.sh", "env.sh"):
        s[f] = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/env.sh", d + ".env.sh")
        open(d + "." + f, "w").write(s[f])
    return sh("bash %s.%s %s" % (d, name, args))


def passed(d):
    out = d + ".json"
    script("test.sh", d, out)
    o = json.load(open(out))
    res = o.get("results", o)
    return set(o.get("passed", [])) if "passed" in o else {k for k, v in res.items() if v in ("pass", "passed", True, "PASS", "ok")}


def demo(id, d):
    # laid elsewhere, without patch and meta
    dd = d + ".demo"
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(os.path.join(SEED, id), dd)
    for f in os.listdir(dd):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(dd, f))
    return sh(". /opt/vp/env.sh; cd %s; bash %s/demo.sh" % (d, dd), timeout=300)


def confirm(id):
    d = "/tmp/seedwt/" + id
    copy(d)
    b = json.load(open("/opt/vp/BASELINE.json"))
    base = set(b.get("stable") or b.get("passed") or b.get("tests"))
    r = script("build.sh", d)
    assert r.returncode == 0, r.stdout
    r0 = demo(id, d)
    r = sh("git apply %s" % os.path.join(SEED, id, "patch.diff"), cwd=d)
    if r.returncode:
        print(id, "patch does not apply:", r.stdout)
        return False
    r = script("build.sh", d)
    if r.returncode:
        print(id, "does not build", r.stdout)
        return False
    missing = base - passed(d)
    r1 = demo(id, d)
    ok = r0.returncode == 0 and r1.returncode != 0 and not missing
    print(id, "CONFIRMED" if ok else "NOT CONFIRMED", "clean:", r0.returncode, "patched:", r1.returncode, "missing tests:", sorted(missing)[:5])
    if not ok or "-v" in sys.argv:
        print("--- clean\n", r0.stdout[-1500:], "--- patched\n", r1.stdout[-1500:])
    sh("rm -rf /tmp/seedwt/%s*" % id)
    return ok


def attempt(id, checks):
    checks = checks or [json.load(open(os.path.join(SEED, id, "meta.json")))["property"]]
    assert not sh("git -C /repo status --porcelain").stdout
    r = sh("git -C /repo apply %s" % os.path.join(SEED, id, "patch.diff"))
    assert r.returncode == 0, r.stdout
    try:
        for c in checks:
            r = sh("python3 %s/checks/check.py %s" % (VERIF, c), timeout=1200)
            lines = r.stdout.splitlines()
            print(id, c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + c in r.stdout else "MISSED", lines[-1][:200] if lines else "")
            if "-v" in sys.argv or r.returncode not in (0, 1):
                print(r.stdout[:3000])
    finally:
        sh("git -C /repo checkout -- .")


args = [a for a in sys.argv[1:] if a != "-v"]
if args[0] == "new":
    copy("/tmp/seed/" + args[1])
elif args[0] == "take":
    id = args[1]
    os.makedirs(os.path.join(SEED, id), exist_ok=True)
    r = sh("git diff", cwd="/tmp/seed/" + id)
    open(os.path.join(SEED, id, "patch.diff"), "w").write(r.stdout)
    print(r.stdout)
    sh("rm -rf /tmp/seed/" + id)
elif args[0] == "confirm":
    bad = [i for i in (args[1:] or sorted(os.listdir(SEED))) if not confirm(i)]
    print("not confirmed:", bad)
elif args[0] == "try":
    attempt(args[1], args[2:])
