#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans (run by hand after adding a plan)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS, NOTES
TECH = ("TLA+ specification checked with TLC (model exploration plus refinement), bound to the code by replaying "
        "behaviours of the specification into the real containers and validating every recorded run with TLC")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in PLANS:
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                                technique=TECH, level="model_checking", level_note=NOTES.get(i, NOTES[""])))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
