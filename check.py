#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core

MODULES = {"T": "containers", "V": "containers", "R": "containers", "A": "containers", "G": "containers", "S": "containers",
           "E": "encoding", "U": "url", "C": "css", "Q": "selectors", "H": "html", "I": "infra", "D": "containers", "X": "threads"}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("vf." + MODULES[prop[0]])
    try:
        return mod.check(prop, tier)
    except core.NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("NO-ANSWER property=%s the machinery failed" % prop)
        return 3


if __name__ == "__main__":
    sys.exit(main())
