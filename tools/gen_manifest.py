#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules present (checks/cNN.py with a META dict) and properties.jsonl"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/tools", ROOT + "/checks"]
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NA = json.load(open(ROOT + "/tools/not_applicable.json")) if os.path.exists(ROOT + "/tools/not_applicable.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]; f = ROOT + "/checks/%s.py" % i.lower()
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module(i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 run_check.py {i} quick", "thorough_cmd": f"python3 run_check.py {i} thorough", "technique": m.META["technique"], "level": m.META.get("level", "model_checking"), "level_note": m.META["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na, "notes": "Engine and harness descriptions: DESIGN.md"}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
