#!/usr/bin/env python3
"""Writes properties.jsonl (from tools/props.py) and MANIFEST.json (from the checks' headers)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        if pid not in [x["property"] for x in NOT_APPLICABLE]:
            print("no check for", pid)
        continue
    m = importlib.import_module("checks." + pid.lower())
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.LEVEL_NOTE})
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks in /repo: everything is observed through public and internal C++ interfaces; see DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
