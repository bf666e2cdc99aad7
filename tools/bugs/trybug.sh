#!/bin/bash
# trybug.sh ID... : confirm a planted bug in /repo and run its property's check; restores /repo
# With NOCHECK=1 the check is left out.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/tb.json >/tmp/tbt.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
s=b.get('stable') or b.get('passed') or b
print('tests-ok' if set(s)<=set(r['passed']) else 'TESTS-FAIL %s' % sorted(set(s)-set(r['passed'])))")
  bash $d/demo.sh >/tmp/tb.demo 2>&1; dm=$?
  c=-
  if [ -z "${NOCHECK:-}" ]; then (cd /verif && timeout 900 python3 check.py $p quick) >/tmp/tb.check.$id 2>&1; c=$?; fi
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $d/demo.sh >/dev/null 2>&1; d0=$?
  echo "$id $p $t demo=$dm clean-demo=$d0 check=$c $(grep -h '^VIOLATION' /tmp/tb.check.$id 2>/dev/null | head -1)"
done
