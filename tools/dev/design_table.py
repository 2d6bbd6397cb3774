#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (dev aid)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| bug | breaks | what | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"] + " quick")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- SEEDS -->.*?<!-- /SEEDS -->", lambda _: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->", t, flags=re.S)
open(p, "w").write(t)
