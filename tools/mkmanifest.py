#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA_REASON = ("pure function of its input: no schedule, clock, I/O, fault, crash or history can change the result, "
             "so a simulated execution adds nothing to input generation; not a simulation target")
NA = ["C30", "C31", "C32", "C33", "C34"]
CLAIMED = sys.argv[1:] or [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()]
props = {p["id"]: p for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
checks = []
for c in CLAIMED:
    checks.append({
        "property": c,
        "quick_cmd": f"/opt/venv/bin/python check.py {c}",
        "thorough_cmd": f"/opt/venv/bin/python check.py {c} --tier thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories "
                     "against a reference model",
        "level": "exploration",
        "level_note": "Sampled executions of the real booktest code under a simulator that owns scheduling, clock, file "
                      "faults, crashes, signals, network and the worker pool; a clean run is evidence, not proof. Trusted: "
                      "the simulator's stubs (multiprocessing.Pool, HTTP transports, clock) and the oracle.",
    })
na = [{"property": p, "reason": NA_REASON} for p in NA]
for p in props:
    if p not in CLAIMED and p not in NA:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python check.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is patched from /verif at import time. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
