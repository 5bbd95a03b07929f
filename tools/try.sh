#!/bin/bash
# try.sh <seeded id> [check ids...]: demonstration and checks on scratch copies with and without the change
B=/verif/seeded/$1; shift
PROP=$(python3 -c "import json,sys;print(json.load(open('$B/meta.json'))['property'])")
W=/tmp/try.$$; mkdir $W; cp -a /repo $W/repo; cp -a $B $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
D=$(cd $W/repo && timeout 300 bash $W/demo/demo.sh > $W/clean.txt 2>&1; echo $?)
git -C $W/repo apply $B/patch.diff || echo "PATCH DOES NOT APPLY"
P=$(cd $W/repo && timeout 300 bash $W/demo/demo.sh > $W/bug.txt 2>&1; echo $?)
# the stable tests, in the copy
(cd $W && sed "s#/repo#$W/repo#g; s#/opt/booktest-work#$W/work#g" /opt/vp/test.sh > test.sh && bash test.sh $W/out.json > $W/test.txt 2>&1)
T=$(python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','stable','tests'):
        if k in x:
            v=x[k]
            return set(v if isinstance(v,list) else [a for a,c in v.items() if c in ('passed','OK',True)])
    return set()
m=passed(b)-passed(o)
print("tests-ok" if passed(b) and not m else f"TESTS-FAIL {sorted(m)[:4]}")
P
)
echo "$(basename $B): demo clean=$D bug=$P $T"
[ "$D" != 0 ] && tail -5 $W/clean.txt
[ "$P" == 0 ] && tail -5 $W/bug.txt
for c in ${@:-$PROP}; do
  if [ -f /verif/sim/checks/${c,,}.py ]; then
  mkdir -p $W/v; cp -a /verif/sim /verif/check.py /verif/known_findings.json $W/v/; mkdir -p $W/v/evidence
  SIM_REPO=$W/repo VERIF_SEED=${SEED:-1} /opt/venv/bin/python $W/v/check.py $c > $W/c.txt 2>&1; rc=$?
  echo "  $c rc=$rc $(grep -h 'violation class' $W/c.txt) $([ $rc = 2 ] && tail -3 $W/c.txt)"
  fi
done
rm -rf "$W"
