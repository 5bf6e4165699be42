#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/planted_notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + "/tools/planted_notes.json"))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    c = lambda s: " ".join(s.split()).replace("|", "\\|")
    rows.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {c(notes['missed'].get(d, ''))} |")
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs")
s = s[:i] + "## Planted bugs\n\n" + notes["intro"] % len(rows) + "\n\n| bug | caught by | what it breaks | needs | first missed; what was strengthened |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
