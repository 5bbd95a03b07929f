#!/bin/bash
# catch.sh [ids]: runs every check against each planted bug (on a copy) and writes tools/caught.txt
cd "$(dirname "$0")/.."
for b in ${@:-$(ls seeded)}; do
  d=/tmp/catch.$b; rm -rf "$d"; cp -a /repo "$d"; git -C "$d" apply "$PWD/seeded/$b/patch.diff" || continue
  out=""
  # NEAR="C05 C06": only these and the check of the bug's own property
  own=$(python3 -c "import json; print(json.load(open('seeded/$b/meta.json'))['property'])")
  for c in ${NEAR:+$own} ${NEAR:-$(cat tools/claimed.txt)}; do
    [[ " $out " == *" $c "* ]] && continue
    SIM_REPO=$d VERIF_SEED=1 timeout 900 /opt/venv/bin/python check.py $c > /tmp/catch.$b.log 2>&1
    [[ $? == 1 ]] && out="$out $c"
  done
  sed -i "/^$b|/d" tools/caught.txt; echo "$b|${out# }" >> tools/caught.txt; echo "$b: $out"
  rm -rf "$d"
done
