#!/bin/bash
# development aid: seedtest.sh ID... : applies a planted bug, runs the stable tests, its demo and its property's check, undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
S=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.log 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if isinstance(x,dict) and k in x:
            y=x[k]; return set(y if isinstance(y,list) else [n for n,v in y.items() if v in (True,'passed','ok','pass')])
    return set()
m=names(b)-names(r); print('tests ok' if names(b) and not m else 'TESTS BROKEN %d of %d %s'%(len(m),len(names(b)),sorted(m)[:4]))
P
)
(cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed.$id.demo1 2>&1); d1=$?
(cd $V && timeout 900 ./check.sh $p quick >/tmp/seed.$id.check 2>&1); c1=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed.$id.demo0 2>&1); d0=$?
echo "$id ($p): $t; demo unpatched=$d0 patched=$d1; check=$c1 $(grep -c VIOLATION /tmp/seed.$id.check)"
done
