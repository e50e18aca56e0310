#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (the table of planted bugs) from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "DESIGN.md")
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split(os.sep)[-2], m.get("caught_by", m["property"]), m["needs"], m["what_it_breaks"]))
s = open(path).read()
a, b = "<!-- planted bugs -->\n", "<!-- end -->"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
