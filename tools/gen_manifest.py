#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import plan
V = os.path.dirname(H)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over schedules, inputs and faults against a reference model"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i, "technique": plan.PLAN[i].get("technique", TECH), "level": "exploration",
                       "level_note": plan.PLAN[i].get("note", "Sampled executions of the real C code under a simulator that owns sockets, readiness, clocks and faults; every answer, command and modification is compared with an independent sequential model. Not a proof: a clean batch is evidence for the sampled schedules.") })
    else: na.append({"property": i, "reason": plan.NA.get(i, "not claimed yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(sorted({e.get("variant", "plain") for p in plan.PLAN.values() for e in p["runs"]})),
     "hooks": {"guard": "MILTER_MANAGER_SIMULATION", "enable": "tools/build.py compiles /repo's sources with -DMILTER_MANAGER_SIMULATION; the one guarded hook lets the simulator choose the size up to which a body is kept in memory. Every other seam is an interposed libc call or a subclassed configuration.", "source_commits": ["a8b57ff"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
