#!/bin/bash
# soak.sh <prop> <tier> <seeds...>: runs a check from a copy of the work, against a copy of /repo
P=$1; T=$2; shift 2
D=/tmp/soak.$P.$$; mkdir -p $D; cp -a /verif/sim /verif/check.py /verif/known_findings.json $D/; mkdir $D/evidence
cp -a /repo $D/repo
for s in "$@"; do SIM_REPO=$D/repo VERIF_SEED=$s /opt/venv/bin/python $D/check.py $P --tier $T 2>&1 | tail -4; done > /tmp/soak-$P.log
mkdir -p /tmp/soakreplays; cp $D/replays/* /tmp/soakreplays/ 2>/dev/null
rm -rf "$D"
