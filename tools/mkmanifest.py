#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    pid = json.loads(line)["id"]
    if not os.path.exists("%s/checks/%s.py" % (V, pid.lower())):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    c = importlib.import_module("checks." + pid.lower()).CHECK
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid, "thorough_cmd": "python3 run.py %s thorough" % pid,
                   "technique": c.technique, "level": c.level, "level_note": c.level_note})
m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input search with an explicit oracle; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
