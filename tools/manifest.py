#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the list of implemented checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "checks.py")).read())
checks = []
for p in props:
    if p in CHECKS:
        t, lvl, note = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
          "technique": t, "level": lvl, "level_note": note, "evidence_file": f"evidence/{p}.json"})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": HOOKS, "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "monitor not built yet")} for p in props if p not in CHECKS]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
