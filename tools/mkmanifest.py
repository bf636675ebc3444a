#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NA
allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in allp:
    if p in PROPS:
        c = PROPS[p]
        checks.append({
            "property": p, "quick_cmd": "python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, simulated time and faults, history oracles",
            "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is interposed at link time (pthread, futex, clock, allocation and socket entry points, "
              "plus the compiler's thread-sanitizer callbacks), so the shipped sources are simulated unmodified. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
