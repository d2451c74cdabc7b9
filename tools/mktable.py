#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
notes = json.load(open(V + "/tools/caught.json"))
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), notes.get(b, m["property"])))
s = open(V + "/DESIGN.md").read()
i = s.find("@@SEEDED@@")
j = s.find("| bug | needs")
i = i if i >= 0 else j
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n")
