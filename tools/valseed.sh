#!/bin/bash
# valseed.sh ID: applies a planted change to /repo, checks that it builds, passes the stable tests, fails its demonstration, and which checks catch it; undoes it
id=$1; d=/verif/seeded/$id
git -C /repo checkout -q -- .
export DEMO_TARGET=/tmp/dt
(cd /repo && bash "$d/demo.sh" > /tmp/seed.clean 2>&1); clean=$?
git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
(cd /repo && bash "$d/demo.sh" > /tmp/seed.bug 2>&1); bug=$?
tests=skipped
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh > /tmp/seed.build 2>&1 && bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1
  tests=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed.json'))['passed'])
print('ok' if b<=p else 'LOST '+str(sorted(b-p)[:3]))")
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
caught=""
for c in ${CHECKS:-$prop}; do
  (cd /verif && ./check $c quick > /tmp/seed.check 2>&1); r=$?
  [ $r = 0 ] || caught="$caught $c($r:$(grep -c ^VIOLATION /tmp/seed.check))"
done
git -C /repo checkout -q -- .
echo "$id ($prop): demo clean=$clean bug=$bug [$(tail -1 /tmp/seed.bug | cut -c1-100)] tests=$tests caught by:$caught"
