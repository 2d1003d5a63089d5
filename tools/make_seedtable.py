#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only; no check reads seeded/)."""
import json, os
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(top, "seeded"))):
    m = json.load(open(os.path.join(top, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = os.path.join(top, "DESIGN.md")
s = open(p).read().split("<!-- seeds -->")[0]
open(p, "w").write(s + "<!-- seeds -->\n| id | property whose check reports it | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows), "planted bugs")
