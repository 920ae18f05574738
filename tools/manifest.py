#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        plan = PLAN[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, segmentations, faults and workloads (%s)" % ", ".join(s for _, s, _ in plan["scenarios"]),
            "level": "exploration",
            "level_note": "Seeded random search, no exhaustiveness. Oracle: " + plan["oracle"] + ". Trusts the simulator's model of Linux sockets, threads, clocks and files, the compiler and AddressSanitizer (DESIGN.md, Trusted base)."})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check is claimed yet; the scenario for it is being built.")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator interposes the C library. /repo carries only fix: commits."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
