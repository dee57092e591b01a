#!/usr/bin/env python3
"""Generates MANIFEST.json from vt/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/vt/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na_file = V + "/tools/not_applicable.json"
na = json.load(open(na_file)) if os.path.exists(na_file) else {}
m = {"version": 1, "setup_cmd": "python3 vt/run.py P01 --build-only",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed; checks compile /repo's sources directly together with the drivers in /verif/drivers (see DESIGN.md)."}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 vt/run.py {i} --tier quick", "thorough_cmd": f"python3 vt/run.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check has been built for this property yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
