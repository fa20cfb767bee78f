#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS, NOTES
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLANS:
        na.append({"property": i, "reason": "no check registered yet: the specification of this part is still being written"})
        continue
    tech, note = NOTES[i[0]]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks build the harness (harness/) against /repo's working tree; no hooks in /repo are needed. Known findings and repairs: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
