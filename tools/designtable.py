#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
t = open(f"{V}/DESIGN.md").read()
t = re.sub(r"\| bug \| property \| needs \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", t)
open(f"{V}/DESIGN.md", "w").write(t)
