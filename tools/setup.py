#!/usr/bin/env python3
"""Checks that the tools are there and warms the build cache; nothing is kept that a check needs."""
import os, shutil, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import core
for t in ("go", "java"):
    if not shutil.which(t):
        sys.exit("missing " + t)
if not os.path.exists(core.tlc_classpath().split(":")[0]):
    sys.exit("missing TLC")
chk = core.Check("setup")
try:
    chk.build("coin", "coin2html", "ofx2coin", "csv2coin", "gc2coin", "gen2coin")
    rc, out = chk.tlc("setup", "MC_Determinism", 'SPECIFICATION MCSpec\nCONSTANTS Requests = {"a"}\n Answers = {"x"}\nPROPERTY MCSettled\nCHECK_DEADLOCK FALSE\n')
    if rc != 0:
        sys.exit("TLC does not run: " + out[-2000:])
finally:
    chk.close()
print("ok")
