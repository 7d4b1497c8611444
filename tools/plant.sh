#!/bin/bash
# tools/plant.sh ID...: confirms planted bugs (builds, tests pass, demo separates) and runs the property's quick check on each.
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo dirty"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];g=json.load(open('/tmp/plant.json'))['passed'];print('tests-ok' if set(b)<=set(g) else 'TESTS-FAIL')")
  bash $d/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
  out=$(cd /verif && timeout 900 python3 run.py check $p quick 2>&1); rc=$?
  git checkout -q -- .
  echo "$id ($p): demo clean=$r0 patched=$r1 $t check=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | tail -1)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
