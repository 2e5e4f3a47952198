#!/usr/bin/env python3
"""quick.py PROP: the quick check with the results of models taken from a cache (the models do not depend on the code under test)."""
import hashlib, os, pickle, sys
sys.dont_write_bytecode = True
H = "/verif/harness"
sys.path.insert(0, H)
import core, registry
CACHE = os.environ.get("MODELCACHE", "/tmp/modelcache")
os.makedirs(CACHE, exist_ok=True)
real = core.Check.model


def model(self, *a, **k):
    h = hashlib.sha256(repr((a, sorted(k.items()))).encode())
    for f in sorted(os.listdir(core.SPEC)):
        h.update(open(os.path.join(core.SPEC, f), "rb").read())
    p = os.path.join(CACHE, h.hexdigest())
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    out = real(self, *a, **k)
    with open(p + ".%d" % os.getpid(), "wb") as f:
        pickle.dump(out, f)
    os.rename(p + ".%d" % os.getpid(), p)
    return out


core.Check.model = model
sys.exit(core.main(sys.argv[1], registry.lookup(sys.argv[1])))
