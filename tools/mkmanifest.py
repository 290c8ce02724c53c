#!/usr/bin/env python3
"""Regenerates MANIFEST.json from sim/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/sim/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C18": "Pure function of its numeric arguments: no schedule, clock, I/O, fault or history to simulate.",
    "C19": "Pure function of its numeric arguments: no schedule, clock, I/O, fault or history to simulate.",
    "C20": "Pure function of two trajectories in memory: no schedule, clock, I/O or fault to simulate.",
    "C21": "Pure function of poses and observations: no schedule, clock, I/O or fault to simulate.",
    "C22": "Pure function of a list of readings: no schedule, clock, I/O or fault to simulate.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "Deterministic simulation with fault injection. No hooks are needed in /repo: every seam is at the compiler "
              "(memory-access instrumentation calling our runtime), linker (clock, files, threads) or header (ROS stub) level."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
