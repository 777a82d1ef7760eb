#!/bin/bash
# tryseed.sh ID...: apply a planted change to /repo, confirm it counts, run its check, undo it
for id in "$@"; do
D=/verif/seeded/$id
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
git -C /repo apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('stable') or b.get('passed') or b
r=json.load(open('/tmp/seed.json'))
print(len(set(s)&set(r['passed'])), len(s), list(set(s)-set(r['passed']))[:3])")
rm -rf /tmp/seeddemo; cp -a $D /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
(cd /repo; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.demo 2>&1); R1=$?
cd /verif; timeout 900 python3 check.py $P > /tmp/seed.check 2>&1; RC=$?
git -C /repo checkout -- .
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.demo0 2>&1); R0=$?
fi
rm -rf /tmp/seeddemo
echo "$id property=$P tests=$T demo_bad=$R1 demo_good=$R0 check=$RC $(grep -c '^VIOLATION' /tmp/seed.check)"
grep -v ' instances, ' /tmp/seed.check | cut -c1-220 | head -${LINES_:-3}
done
