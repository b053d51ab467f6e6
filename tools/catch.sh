#!/bin/bash
# catch.sh [-t] <id>...: does the property's check report the planted change?  -t also builds and runs the stable tests.
T=0; [ "$1" = -t ] && { T=1; shift; }
for i in "$@"; do S=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || { echo "$i: does not apply"; continue; }
if [ $T = 1 ]; then bash /opt/vp/build.sh >/tmp/cb.log 2>&1 || echo "$i: BUILD FAILS"; bash /opt/vp/test.sh /tmp/ct.json >/tmp/ct.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/ct.json'));m=[x for x in b['stable'] if x not in o['passed']]
print('$i tests:', 'pass' if not m else 'FAIL %s'%m[:3])"; fi
s=$(date +%s); (cd /verif && python3 check.py $P > /tmp/catch.log 2>&1); rc=$?
echo "$i $P rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/catch.log)"
git -C /repo checkout -q -- .; done
[ $T = 1 ] && { bash /opt/vp/build.sh >/dev/null 2>&1; }
