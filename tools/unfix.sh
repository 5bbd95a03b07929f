#!/bin/bash
# tools/unfix.sh [subject part]: reverts each fix commit alone in a copy and shows whether the check of its property sees it
cd "$(dirname "$0")/.."
while IFS='|' read -r prop subj what; do
  [[ -n "$1" && "$subj" != *"$1"* ]] && continue
  c=$(git -C /repo log --format='%h %s' | grep -F -- "$subj" | tail -1 | cut -d' ' -f1)
  d=/tmp/unfix.$$; rm -rf "$d"; cp -a /repo "$d"
  if ! git -C "$d" revert --no-commit "$c" >/dev/null 2>&1; then echo "$prop $c CONFLICT $subj"; rm -rf "$d"; continue; fi
  for s in ${SEEDS:-1 2 3}; do
    out=$(SIM_REPO=$d VERIF_SEED=$s timeout 600 /opt/venv/bin/python check.py $prop 2>&1)
    cls=$(echo "$out" | grep "violation class" | head -1)
    if [[ -n "$cls" ]]; then echo "$prop $c seed $s$cls :: $subj"; break; fi
    [[ $s == $(echo ${SEEDS:-1 2 3} | awk '{print $NF}') ]] && echo "$prop $c MISSED :: $subj"
  done
  rm -rf "$d"
done < tools/fixed.txt
