#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | what it needs | files |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{b}"
    m = json.load(open(d + "/meta.json"))
    files = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(d + "/patch.diff").read(), re.M)))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {b} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {', '.join(files)} |")
p = V + "/DESIGN.md"; s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
if "<!-- planted -->" in s: s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: t, s, flags=re.S)
else: s = s.replace("\nPLANTED\n", "\n" + t + "\n")
open(p, "w").write(s)
