#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the current tree of /repo."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import core, registry
if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(core.main(prop, registry.lookup(prop)))
