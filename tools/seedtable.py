#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open(H + "/DESIGN.md").read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S) if "<!-- seeded -->" in s else s.replace("SEEDED_TABLE", t)
open(H + "/DESIGN.md", "w").write(s)
