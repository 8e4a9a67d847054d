#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md, between its markers."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (check) | what it needs |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"; s = open(p).read()
a = "<!-- seeds -->"; b = "<!-- /seeds -->"
if "@SEEDTABLE@" in s: s = s.replace("@SEEDTABLE@", a + b)
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
