#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
