#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.json, which maps each bug to the checks that were seen to catch it."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + "/tools/caught.json"))
rows = ["| bug | property | what it breaks | caught by |", "|-----|----------|----------------|-----------|"]
metas = [(json.load(open(f"{root}/seeded/{d}/meta.json")), d) for d in os.listdir(root + "/seeded")]
for m, d in sorted(metas, key=lambda x: (x[0]["property"], x[1])):
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].rstrip('.')} | {', '.join(caught.get(d, [])) or 'not caught'} |")
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
