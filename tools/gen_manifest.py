#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the explorers use the public API only and are compiled together with /repo's sources in a scratch directory."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
