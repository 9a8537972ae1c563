#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
rows = {}
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.setdefault(m["property"], []).append((d, m["what_it_breaks"], m["needs"]))
out = ["| check | planted bug | what it breaks | what it needs |", "|---|---|---|---|"]
for p in sorted(rows):
    for d, b, n in rows[p]:
        out.append(f"| {p} | {d} | {b} | {n} |")
path = f"{root}/DESIGN.md"
s = open(path).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + "\n".join(out) + "\n" + m[2], s, flags=re.S)
open(path, "w").write(s)
print(sum(map(len, rows.values())), "bugs")
