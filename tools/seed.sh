#!/bin/bash
# tools/seed.sh <id> <property>: take the current diff of /tmp/w as a planted bug, confirm build, tests and demo in a scratch copy.
# /verif/seeded/<id>/demo.sh and meta.json must exist already.
set -e
id=$1
d=/verif/seeded/$id
git -C /tmp/w diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
git -C /tmp/w checkout -q -- .
git -C /repo apply --check $d/patch.diff
# unchanged: demo must pass
cd /repo
timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1 && echo "clean demo ok" || { echo "clean demo FAILS"; tail -5 /tmp/demo.out; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /tmp/build.out 2>&1' EXIT
bash /opt/vp/test.sh /tmp/t.json > /tmp/test.out 2>&1 || { echo "build/test failed"; tail -20 /tmp/test.out; exit 1; }
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
print('tests ok' if b<=set(t['passed']) else 'TESTS FAIL %s' % (b-set(t['passed'])))
P
if timeout 300 bash $d/demo.sh > /tmp/demo2.out 2>&1; then echo "DEMO DOES NOT FAIL WITH PATCH"; else echo "patched demo fails as it should: $?"; tail -3 /tmp/demo2.out; fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; rc=0; timeout 900 python3 -m sa.check $p > /tmp/chk.out 2>&1 || rc=$?
echo "check $p rc=$rc"; tail -12 /tmp/chk.out
