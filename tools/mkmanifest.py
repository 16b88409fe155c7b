#!/usr/bin/env python3
"""writes MANIFEST.json: one check per module checks/cNN.py, the rest not applicable with a reason"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in NA or not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(i, "the analysis for this property is not built yet")})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i,
                   "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "other"), "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa checks", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
