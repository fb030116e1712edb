#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables of checks."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402
from technique import TECHNIQUE, NOTE  # noqa: E402

VERIF = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[i], "level": CHECKS[i].get("level", "exploration"), "level_note": NOTE[i],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
m["notes"] = "No hooks in /repo. Failing cases are written to replays/ and run again with: python3 check.py --replay FILE."
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
