#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"],
                 "quick_cmd": "./check.sh %s quick" % p["id"],
                 "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": "exploration",
                 "level_note": p["level_note"]} for p in PROPS if p["id"] not in na],
     "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
