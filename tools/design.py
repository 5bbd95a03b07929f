#!/usr/bin/env python3
"""Fills section 10 of DESIGN.md from seeded/*/meta.json and tools/caught.txt (written by tools/catch.sh)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(ROOT, "tools", "caught.txt")
for l in open(p):
    bid, _, what = l.rstrip("\n").partition("|")
    caught[bid] = what
rows = ["| planted bug | property | needs | caught by (quick tier, seed 1) |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |")
d = os.path.join(ROOT, "DESIGN.md")
s = open(d).read()
s = re.sub(r"(?s)<!-- catch -->.*<!-- /catch -->", lambda _: "<!-- catch -->\n" + "\n".join(rows) + "\n<!-- /catch -->", s)
open(d, "w").write(s)
