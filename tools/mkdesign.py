#!/usr/bin/env python3
"""fills in the table of planted bugs in DESIGN.md (run by hand)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " "))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
