#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.REG:
        level, note, tech = props.META.get(i, ("model_checking", "", ""))
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "technique": tech or props.TECH, "level": level, "level_note": note or props.NOTE})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the driver links the library's own sources", "source_commits": []},
     "not_applicable": na, "notes": "TLA+ with TLC. See DESIGN.md. Every check builds the library from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not applicable")
