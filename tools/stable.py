#!/usr/bin/env python3
"""stable.py COPY: runs the stable tests on a copy of /repo, exit 0 if all of them pass."""
import json, os, shutil, subprocess, sys, tempfile
copy = os.path.abspath(sys.argv[1])
d = tempfile.mkdtemp(prefix="stable.", dir="/tmp")
try:
    s = open("/opt/vp/test.sh").read().replace("/opt/booktest-work", d + "/w").replace("/repo", copy)
    open(d + "/t.sh", "w").write(s)
    subprocess.run(["bash", d + "/t.sh", d + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    left = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/o.json"))["passed"])
    print(sorted(left))
    sys.exit(1 if left else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
