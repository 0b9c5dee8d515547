#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from checks import CHECKS
from tools.levels import TECH, NOTE, NA

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i}",
                       "thorough_cmd": f"python3 run.py check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: its harness is still being built")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "Property-based testing and fuzzing with a common engine (harness/pbt.*): generated choice "
              "tapes, coverage feedback, shrinking, replay files under replays/. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
