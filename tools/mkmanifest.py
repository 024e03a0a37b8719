#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
PBT = "property-based testing + coverage-guided fuzzing: "
T = json.load(open(os.path.join(root, "tools", "checks.json")))
checks = []
for i in ids:
    if i in T:
        t, note = T[i]["technique"], T[i]["note"]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": PBT + t,
            "level": T[i].get("level", "exploration"),
            "level_note": note,
        })
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in T]
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public API. /repo's fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
