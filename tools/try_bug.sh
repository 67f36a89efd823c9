#!/bin/bash
# tools/try_bug.sh ID [notest]: apply a planted bug, build, run tests, demo and its check, then undo.
id=$1
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 3; }
git -C /repo apply $d/patch.diff || { echo "$id patch does not apply"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != notest ]; then
  bash /opt/vp/build.sh > /tmp/try_build.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/try_build.log; exit 3; }
  bash /opt/vp/test.sh /tmp/try_test.json > /tmp/try_test.log 2>&1
  python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/try_test.json'))
base=set(b.get('passed') or b.get('stable') or b.get('tests'))
miss=base-set(t['passed'])
print('$id tests:', 'ok' if not miss else 'BROKEN %s'%sorted(miss)[:5])
PY
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/try_demo.log 2>&1); rc=$?
  echo "$id demo with bug: $rc (want nonzero)"
fi
(cd /verif && timeout 900 python3 run_check.py $prop > /tmp/try_check.log 2>&1); rc=$?
echo "$id check $prop: exit $rc $(grep -a -m1 VIOLATION /tmp/try_check.log)"; grep -a -A1 -m1 VIOLATION /tmp/try_check.log | tail -1; tail -1 /tmp/try_check.log
git -C /repo checkout -q -- .
trap - EXIT
if [ "$2" != notest ]; then
  bash /opt/vp/build.sh > /tmp/try_build.log 2>&1
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/try_demo2.log 2>&1); rc=$?
  echo "$id demo clean: $rc (want 0)"
fi
