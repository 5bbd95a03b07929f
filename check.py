#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--count N] | --replay FILE [-v] | --setup"""
import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import runner

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
ap.add_argument("--count", type=int)
ap.add_argument("--replay")
ap.add_argument("--keep", action="store_true")
ap.add_argument("-v", action="store_true")
ap.add_argument("--setup", action="store_true")
a = ap.parse_args()
if a.setup:
    os.makedirs(os.path.join(runner.ROOT, "evidence"), exist_ok=True)
    import subprocess
    sys.exit(subprocess.run([sys.executable, "-c", "from sim import boot; boot.boot(); print('simulator loads')"],
                            cwd=runner.ROOT, env=runner.env_for(0)).returncode)
if a.replay:
    sys.exit(runner.replay_main(a.replay, a.v))
sys.exit(runner.main(a.property, a.tier, a.seed, a.count, a.keep))
