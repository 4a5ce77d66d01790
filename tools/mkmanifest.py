#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from levels import LEVELS, REASONS
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in LEVELS and os.path.exists(os.path.join(V, "checks", p + ".py")):
        tech, level, note = LEVELS[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py --tier quick" % p,
                       "thorough_cmd": "python3 checks/%s.py --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": REASONS.get(p, "check not built yet; see DESIGN.md")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses observe the public API, and the scheduler and network are interposed at link time. Exit 2 = the check could not run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
