#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} |\n")
p = root + "/DESIGN.md"
s = open(p).read()
at = s.index("| bug | caught by | needs |\n|---|---|---|\n") + len("| bug | caught by | needs |\n|---|---|---|\n")
open(p, "w").write(s[:at] + "".join(rows))
