#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {d.split('/')[1]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open("DESIGN.md").read()
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n\n<!-- end -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
