#!/usr/bin/env python3
"""one.py SCRIPT [SPEC] [VARIANT] -- run one script and judge its log (for debugging and replays)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import *
c = Ctx("one", "quick", 1)
o = c.job("one", open(sys.argv[1]).read().splitlines(), spec=sys.argv[2] if len(sys.argv) > 2 else "AlgTrace", variant=sys.argv[3] if len(sys.argv) > 3 else "plain")
print("ok" if o["ok"] else "REJECTED", "events", o["n"], "wall %.1f" % o["wall"])
if not o["ok"]:
    print("line:", o["badline"]); print("log:", json.dumps(o["bad"])[:1500]); print(o["msg"]); print(o["err"][-2000:])
sys.exit(0 if o["ok"] else 1)
