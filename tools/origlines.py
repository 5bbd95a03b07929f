#!/usr/bin/env python3
"""Which of a planted bug's removed lines are lines of the original repository?"""
import subprocess,sys,re
BASE=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD",shell=True,capture_output=True,text=True).stdout.split()[0]
BASE=sys.argv[2] if len(sys.argv)>2 else "9a01272aac"
p=open(f"/verif/seeded/{sys.argv[1]}/patch.diff").read()
f=None
for l in p.splitlines():
    if l.startswith("+++ b/"): f=l[6:]; base=subprocess.run(["git","-C","/repo","show",f"{BASE}:{f}"],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith("-") and not l.startswith("---"): print("ORIG" if l[1:] in base else "MINE", f, l)
