#!/usr/bin/env python3
"""Maintains the "fixed" list of known_findings.json: (properties, start of the subject in /repo's log, what failed)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [tuple(l.rstrip("\n").split("|", 2)) for l in open(os.path.join(ROOT, "tools", "fixed.txt")) if l.strip()]
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True,
                                                            text=True).stdout.splitlines())
out = []
for prop, subj, what in FIXED:
    hit = [(s, h) for s, h in log.items() if s == subj] or [(s, h) for s, h in log.items() if s.startswith(subj)]
    assert len(hit) == 1, (subj, hit)
    out.append(f"fixed: property={prop} {hit[0][1]} {what}")
p = os.path.join(ROOT, "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
done = {s for _, s, _ in FIXED}
for s in log:
    if s.startswith("fix:") and not any(s.startswith(d) for d in done):
        print("not recorded:", s)
