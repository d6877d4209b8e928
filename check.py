#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree (VERIF_TIER=quick|thorough)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc"))
sys.setrecursionlimit(20000)
sys.stdout.reconfigure(errors="backslashreplace")
if __name__ == "__main__":
    importlib.import_module(sys.argv[1].lower()).main()
