#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    caught = m.get("caught_by", m["property"])
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught))
p = V + "/DESIGN.md"
s = open(p).read()
head = "| id | what it breaks | needs | caught by |\n|----|----------------|-------|-----------|\n"
b, e = "<!-- seeds -->\n", "<!-- /seeds -->\n"
s = s[:s.index(b) + len(b)] + head + "\n".join(rows) + "\n" + s[s.index(e):]
open(p, "w").write(s)
