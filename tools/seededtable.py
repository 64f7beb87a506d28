#!/usr/bin/env python3
"""Writes the table of planted bugs (section 6 of DESIGN.md) from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
also = json.load(open(here + "/tools/seeded_also.json"))
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    a = also.get(d)
    by = m["property"] if a is None else a
    rows.append(f"| {d} | {by} | {m['needs']} |")
p = here + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end of table -->"
s = re.sub(r"SEEDED_TABLE|<!-- table -->.*<!-- end of table -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
