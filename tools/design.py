#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- table -->", "| bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
rows.append("<!-- end -->")
p = root + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows) + "\n"
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"<!-- table -->.*?<!-- end -->\n", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
