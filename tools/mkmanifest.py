#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of finished checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import registry
NOTES = {
    "default": "Exhaustive on the specification within the constants of the models named in the evidence; the real programs are compared with the "
               "specification on every event of the recorded runs, so a difference is found if one of the scenarios shows it. Assumes TLC, the Go "
               "toolchain and the readers of program output in /verif/harness.",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    try:
        registry.lookup(p["id"])
    except SystemExit:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 checks/check.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 checks/check.py " + p["id"],
                       technique="TLA+ specification model checked with TLC; traces recorded from the real programs and scenarios enumerated by TLC validated against it",
                       level="model_checking", level_note=NOTES.get(p["id"], NOTES["default"])))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, harness in harness/, see DESIGN.md. No hooks are needed in /repo: the checks observe the programs from outside or "
               "through the exported API.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
