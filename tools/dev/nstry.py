#!/usr/bin/env python3
"""nstry.py [-j N] PATCH|ID[:CHECK,CHECK]...: runs checks against a patched copy of /repo, which stands at /repo in a mount namespace
of its own, so /repo itself is left alone.  Prints the verdict of each check."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
SEED = "/verif/seeded"


def attempt(spec):
    id, _, checks = spec.partition(":")
    if os.path.exists(id):
        patch, name = os.path.abspath(id), os.path.basename(id)
    else:
        patch, name = os.path.join(SEED, id, "patch.diff"), id
        checks = checks or json.load(open(os.path.join(SEED, id, "meta.json")))["property"]
    d = "/tmp/ns/%s-%d" % (name, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/ev")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    if os.environ.get("NSTRY_BASE"):
        subprocess.check_call(["git", "-C", d + "/repo", "apply", os.environ["NSTRY_BASE"]])
    if os.path.getsize(patch):
        subprocess.check_call(["git", "-C", d + "/repo", "apply", patch])
    out = []
    for c in checks.split(","):
        t = time.time()
        p = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/ev /verif/evidence; cd /verif; "
                            "timeout 900 python3 checks/check.py %s" % (d, d, c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        s = "%s %s exit %d %.0fs %s" % (name, c, p.returncode, time.time() - t, "CAUGHT" if p.returncode == 1 and v else "quiet" if p.returncode == 0 else "BROKEN")
        if p.returncode not in (0, 1) or "-v" in sys.argv:
            s += "\n" + p.stdout[-3000:] if p.returncode not in (0, 1) else p.stdout[-500:]
        print(s, flush=True)
        out.append(s)
        if v and "--first" in sys.argv:
            break
    shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a not in ("-v", "--first")]
    j = 1
    if args[0] == "-j":
        j, args = int(args[1]), args[2:]
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(attempt, args))
