#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo statically."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from common import Check, Broken
import registry

def main():
    prop = sys.argv[1]
    tier = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--tier" else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        registry.run(prop, c)
        return c.finish()
    except Broken as e:
        print(f"{prop}: ANALYSIS BROKEN: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"{prop}: ANALYSIS BROKEN")
        return 3

sys.exit(main())
