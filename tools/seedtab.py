#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d.get("caught_by", d["property"])))
p = here + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t)
open(p, "w").write(t)
