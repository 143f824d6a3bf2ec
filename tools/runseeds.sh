#!/bin/bash
# Run the property's check (or the checks given after the seed name) against planted bugs in a scratch copy.
# tools/runseeds.sh [seed [check...]]
rm -rf /tmp/w
git clone -q /repo /tmp/w
cd /verif
for d in seeded/${1:-*}/; do
  id=$(basename $d)
  git -C /tmp/w checkout -q -- . ; git -C /tmp/w apply /verif/$d/patch.diff || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  for c in ${@:2} $( [ $# -lt 2 ] && echo $p ); do
    VERIF_REPO=/tmp/w timeout 900 python3 -m sa.check $c > /tmp/chk.out 2>&1; rc=$?
    echo "$id $c rc=$rc $(grep -m1 '\[' /tmp/chk.out)"
  done
done
git -C /tmp/w checkout -q -- .
