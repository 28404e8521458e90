#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"]))
t = "| planted | property that catches it | needs |\n|----|----|----|\n" + "".join(f"| {d} | {p} | {n} |\n" for p, d, n in sorted(rows))
f = f"{root}/DESIGN.md"
s = open(f).read()
s = re.sub(r"\| planted \| property.*?\n\n", lambda _: t + "\n", s, flags=re.S)
open(f, "w").write(s)
