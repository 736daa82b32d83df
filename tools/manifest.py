#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claims below."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
CLAIMS = {}
def claim(id, technique, note): CLAIMS[id] = (technique, note)
NA = {}
exec(open("/verif/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {i}",
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its check is still being built")})
json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
