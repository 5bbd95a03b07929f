#!/usr/bin/env python3
"""plant.py <id> <property> <file> <needs> <breaks>: reads OLD/NEW text and demo from stdin (sections ---old ---new ---demo,
repeated ---file PATH allowed) and writes /verif/seeded/<id>.  Works on a copy of /repo."""
import sys, os, subprocess, shutil, json, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop, needs, breaks = sys.argv[1:5]
secs, cur = [], None
for l in sys.stdin.read().split("\n"):
    m = re.match(r"^---(file|old|new|demo)\b ?(.*)$", l)
    if m:
        cur = [m.group(1), m.group(2), []]
        secs.append(cur)
    else:
        cur[2].append(l)
copy = f"/tmp/plant.{bid}"
shutil.rmtree(copy, ignore_errors=True)
subprocess.run(["git", "clone", "-q", os.environ.get("SIM_REPO", "/repo"), copy], check=True)
fn = old = demo = None
for kind, arg, lines in secs:
    t = "\n".join(lines)
    if kind == "file":
        fn = arg
    elif kind == "old":
        old = t
    elif kind == "new":
        p = os.path.join(copy, fn)
        s = open(p).read()
        assert s.count(old.rstrip("\n")) == 1, (s.count(old.rstrip("\n")), old)
        open(p, "w").write(s.replace(old.rstrip("\n"), t.rstrip("\n")))
    else:
        demo = t
d = os.path.join(ROOT, "seeded", bid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo.py", "w").write(demo)
shutil.copy(os.path.join(ROOT, "tools", "demolib.py"), d + "/demolib.py")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(copy)
sys.exit(subprocess.run([os.path.join(ROOT, "tools", "try.sh"), bid]).returncode)
