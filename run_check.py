#!/usr/bin/env python3
"""run_check.py <property> <quick|thorough>"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib
def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.path.insert(0, os.path.join(vlib.ROOT, "checks"))
    mod = importlib.import_module(prop.lower())
    try:
        rc = mod.run(prop, tier)
    except vlib.BuildError as e:
        print(f"{prop}: cannot build or run: {e}"); rc = 2
    sys.exit(rc)
main()
