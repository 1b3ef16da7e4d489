#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=i, reason="No check yet: the harness for this property is still being built.") for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check compiles /repo's own sources into its harness.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
