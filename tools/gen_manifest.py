#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of monitors below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "checks.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS is None: del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
