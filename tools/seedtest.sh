#!/bin/bash
# tools/seedtest.sh ID [nocheck]: a planted bug must apply, build, pass the tests, fail its demo, and be caught.
ID=$1; D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
R="$ID:"
timeout 300 bash $D/demo.sh > /tmp/seed.$ID.clean 2>&1 && R="$R demo-clean=ok" || R="$R demo-clean=FAIL"
git apply $D/patch.diff || { echo "$R does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/seed.$ID.build 2>&1 && R="$R build=ok" || R="$R build=FAIL"
bash /opt/vp/test.sh /tmp/seed.$ID.json > /dev/null 2>&1
R="$R tests=$(python3 -c "
import json;d=json.load(open('/tmp/seed.$ID.json'));b=json.load(open('/opt/vp/BASELINE.json'))
b=b['stable']
print('ok' if set(b)<=set(d['passed']) else 'FAIL')")"
timeout 300 bash $D/demo.sh > /tmp/seed.$ID.bug 2>&1 && R="$R demo-bug=NOT-DETECTED" || R="$R demo-bug=ok"
if [ "$2" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  T0=$(date +%s)
  cd /verif && ./check.sh $P quick > /tmp/seed.$ID.check 2>&1; C=$?
  R="$R check=$C($(grep -c '^VIOLATION property='$P /tmp/seed.$ID.check)) $(( $(date +%s)-T0 ))s $(grep -m1 '^class\|^  class\|violation' /tmp/seed.$ID.check | cut -c1-150)"
fi
echo "$R"
