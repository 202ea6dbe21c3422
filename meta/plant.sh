#!/bin/bash
# plant.sh ID...: confirms planted changes in a scratch copy of /repo: the patch applies and
# builds, the stable tests pass, demo.sh passes without and fails with it; then says what the
# check of its property reports. PLANT_CHK names a built checker (default /tmp/chk).
. /opt/vp/env.sh
for id in "$@"; do
d=/verif/seeded/$id
rm -rf /tmp/plant /tmp/plantd; cp -a /repo /tmp/plant; cp -a $d /tmp/plantd; rm -f /tmp/plantd/patch.diff /tmp/plantd/meta.json
cd /tmp/plant && git checkout -q -- . && go build -o c-for-go . || { echo "$id: base build"; continue; }
(timeout 300 bash /tmp/plantd/demo.sh) >/tmp/plant.out 2>&1 || { echo "$id: demo FAILS on clean"; tail -5 /tmp/plant.out; continue; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
go build ./... && go build -o c-for-go . || { echo "$id: does not build"; continue; }
go test -vet=off -count=1 ./... -json 2>/dev/null | python3 -c "
import sys,json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set()
for l in sys.stdin:
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): p.add(e['Package']+'/'+e['Test'])
m=b-p
print('$id: tests', 'ok' if not m else 'FAIL %s'%sorted(m))"
(timeout 300 bash /tmp/plantd/demo.sh) >/tmp/plant.out 2>&1 && echo "$id: demo PASSES with the bug" || echo "$id: demo fails as wanted: $(tail -1 /tmp/plant.out | cut -c1-150)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
CFG_REPO=/tmp/plant CFG_VERIF=/tmp/v ${PLANT_CHK:-/tmp/chk} $p | cut -c1-260 | tail -2 | sed "s/^/$id: [$p] /"
done
rm -rf /tmp/plant /tmp/plantd
