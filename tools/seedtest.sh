#!/bin/bash
# seedtest.sh ID [notest]: apply a planted bug to /repo, build, run the stable tests, the demo and the property's check, undo
id=$1; d=/verif/seeded/$id
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" = notest ]; then bash /opt/vp/build.sh >/dev/null || echo BUILD FAILED
else bash /opt/vp/test.sh /tmp/seed_$id.json >/dev/null
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open('/tmp/seed_$id.json')); p=set(r['passed'])
m=sorted(b-p); print('TESTS', 'ok' if not m else 'BROKEN %d: %s'%(len(m), m[:3]))
P
fi
cp -r $d /tmp/seeddemo_$id; rm -f /tmp/seeddemo_$id/patch.diff /tmp/seeddemo_$id/meta.json
bash /tmp/seeddemo_$id/demo.sh > /tmp/seed_$id.demo 2>&1; echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/seed_$id.demo
if [ -f /verif/checks/$pid.py ]; then python3 /verif/checks/$pid.py > /tmp/seed_$id.check 2>&1; echo "check $pid: $? (want 1)"; grep -c VIOLATION /tmp/seed_$id.check; grep -B1 VIOLATION /tmp/seed_$id.check | head -2 | cut -c1-300; fi
git checkout -q -- .
trap - EXIT
bash /opt/vp/build.sh >/dev/null
bash /tmp/seeddemo_$id/demo.sh > /tmp/seed_$id.demo0 2>&1; echo "demo without: $? (want 0)"; tail -1 /tmp/seed_$id.demo0
rm -rf /tmp/seeddemo_$id
