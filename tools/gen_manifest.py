#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and the property list."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from common.registry import CHECKS
NA = {}
exec(open(os.path.join(here, "tools", "not_applicable.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 check.py --build",
     "checks": [], "not_applicable": [],
     "notes": "Every check is check.py ID: it builds its harness from /repo's working tree into /verif/build (cached by content), generates cases, shrinks failures to a replay file. No hooks in /repo."}
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                            "technique": c.technique, "level": "exploration", "level_note": c.note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
