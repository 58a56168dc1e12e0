#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below, for the harness packages that exist."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(V + "/techniques.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if not os.path.isdir(f"{V}/harness/{i.lower()}"):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    n = NOTES[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py check {i} --tier quick",
        "thorough_cmd": f"python3 run.py check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": n[0], "level": "exploration", "level_note": n[1],
    })
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile run.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses use exported API and observable effects only, put in with go's -overlay."},
          open(V + "/MANIFEST.json", "w"), indent=1)
