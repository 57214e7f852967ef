#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from driver.props import CHECKS, PENDING
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                 "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": "TLA+ specification checked with TLC, bound to the code by replaying TLC's behaviours and validating recorded traces",
                 "level": CHECKS[p][0], "level_note": CHECKS[p][2]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": PENDING.get(p, "its check is not built yet")} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo: the harness crates compile /repo's sources against the stand-ins in shims/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
