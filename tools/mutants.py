#!/usr/bin/env python3
"""tools/mutants.py [id part...]: applies each mutant of tools/mutants.txt to a copy of /repo, runs the stable tests (with
--tests) and the checks named, and prints which checks see it.  SEEDS=1,2 tries several seeds until one sees it."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out, cur, sec = [], None, None
    for l in open(os.path.join(ROOT, "tools", "mutants.txt")).read().split("\n"):
        if l.startswith("@@ "):
            f = l.split()
            cur = {"id": f[1], "props": f[2].split(","), "edits": []}
            out.append(cur)
        elif l.startswith("@file "):
            cur["edits"].append([l.split()[1], [], []])
        elif l == "@old":
            if cur["edits"][-1][1]:
                cur["edits"].append([cur["edits"][-1][0], [], []])
            sec = 1
        elif l == "@new":
            sec = 2
        elif cur is not None and cur["edits"] and not l.startswith("#!"):
            cur["edits"][-1][sec].append(l)
    return out


def run(m):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", os.environ.get("BASE", "/repo"), d + "/repo"], check=True)
        for fn, old, new in m["edits"]:
            p = f"{d}/repo/{fn}"
            s = open(p).read()
            old, new = "\n".join(old).rstrip("\n"), "\n".join(new).rstrip("\n")
            if s.count(old) != 1:
                return f"{m['id']}: OLD TEXT FOUND {s.count(old)} TIMES: {old[:80]!r}"
            open(p, "w").write(s.replace(old, new))
        os.makedirs(d + "/v/evidence")
        for x in ("sim", "check.py", "known_findings.json"):
            subprocess.run(["cp", "-a", f"{ROOT}/{x}", d + "/v/"], check=True)
        res = []
        for c in m["props"]:
            hit = None
            for seed in os.environ.get("SEEDS", "1").split(","):
                e = dict(os.environ, SIM_REPO=d + "/repo", VERIF_SEED=seed)
                try:
                    q = subprocess.run(["/opt/venv/bin/python", d + "/v/check.py", c], env=e, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    hit = f"{c} TIMEOUT"
                    break
                k = re.search(r"violation class: (.*)", q.stdout + q.stderr)
                if q.returncode == 1 and k:
                    hit = f"{c} caught by seed {seed}: {k[1]}"
                    break
                if q.returncode != 0:
                    hit = f"{c} rc={q.returncode} {(q.stdout + q.stderr)[-300:]}"
                    break
            res.append(hit or f"{c} MISSED")
        return f"{m['id']}: " + "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ms = [m for m in load() if not sys.argv[1:] or any(a in m["id"] for a in sys.argv[1:])]
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    for line in ex.map(run, ms):
        print(line, flush=True)
