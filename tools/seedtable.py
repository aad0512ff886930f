#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|")))
p = V + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("## Planted bugs")]
open(p, "w").write(head + """## Planted bugs

`tools/plant.py` applies each change of `seeded/` to `/repo`, runs the build, the stable tests, the demonstration and the checks, and undoes it.
Every change below passes the tests, has a demonstration that tells it apart, and is reported by the check of the property it breaks.

| change | caught by | what it breaks |
|--------|-----------|----------------|
%s
""" % "\n".join(rows))
