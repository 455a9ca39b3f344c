#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the suites."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vt import suites
NOTE = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPS:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, TECH["default"]), "level": "model_checking",
                       "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1,
     "setup_cmd": "./setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interface only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification in spec/ (TLA+, TLC); harness in harness/; driver ./check PROPERTY [quick|thorough]; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
