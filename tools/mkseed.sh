#!/bin/bash
# mkseed.sh id : verify the seed: demo clean=0, patched!=0, tests pass, check catches
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git status --short | grep -q . && { echo DIRTY; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1; echo "clean demo rc=$?"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo BUILD FAIL; tail -5 /tmp/build.out; git checkout -- .; exit 1; }
timeout 300 bash $S/demo.sh >/tmp/demo2.out 2>&1; echo "patched demo rc=$?"; tail -3 /tmp/demo2.out
[ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if 'passed' in json.load(open('/opt/vp/BASELINE.json')) else None
if b is None:
    x=json.load(open('/opt/vp/BASELINE.json')); b=set(next(v for v in x.values() if isinstance(v,list) and len(v)>400))
t=set(json.load(open('/tmp/t.json'))['passed']); print('broken tests:',sorted(b-t)[:10])
P
}
cd /verif; timeout 900 python3 check.py $P quick 2>&1 | cut -c1-250 | tail -2
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
