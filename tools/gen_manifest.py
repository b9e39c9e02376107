#!/usr/bin/env python3
"""writes MANIFEST.json: the claimed properties are those with a specification module"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NOTE = {}
exec(open(f"{V}/tools/claims.py").read())
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in NA: m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif i in CLAIM:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
            "technique": CLAIM[i][0], "level": "other", "level_note": CLAIM[i][1]})
    else: m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
