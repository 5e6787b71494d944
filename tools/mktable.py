#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for n in sorted(os.listdir(here + "/seeded")):
    d = json.load(open(f"{here}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
s = open(here + "/DESIGN.md").read()
a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
open(here + "/DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[b:])
