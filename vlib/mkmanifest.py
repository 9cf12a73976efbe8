#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, notes
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cl, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS and i in notes.NOTES:
        cl.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "technique": notes.NOTES[i][0], "level": "model_checking", "level_note": notes.NOTES[i][1]})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": cl, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: the real sources are compiled unmodified against the ksim runtime in /verif/ksim."},
          open(V + "/MANIFEST.json", "w"), indent=1)
