#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py (what is claimed) and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib.props import PROPS, NOT_APPLICABLE, HOOKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh"}
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"],
                            "level": p.get("level", "exploration"), "level_note": p["note"]})
m["not_applicable"] = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")} for i in ids if i not in PROPS]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
