#!/usr/bin/env python3
"""check.py <property-id> : decide one property against /repo's current working tree."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import vlib  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(sys.argv[1].lower())
    sys.exit(vlib.Check(sys.argv[1].upper()).run(mod.main))
