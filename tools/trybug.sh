#!/bin/bash
# trybug.sh ID [notest] : demo on clean tree, then with the patch: build, tests, demo, this property's check.
V="$(cd "$(dirname "$0")/.." && pwd)"; B="$V/seeded/$1"
P=$(python3 -c "import json,sys;print(json.load(open('$B/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
(cd /repo; bash $B/demo.sh >/tmp/demo.out 2>&1); echo "demo clean: $? (want 0)"; tail -2 /tmp/demo.out
git -C /repo apply $B/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" != notest ]; then
bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/bb.log; exit 1; }
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/bug.json'))
print('stable tests missing:',[t for t in b['stable'] if t not in set(o['passed'])])
X
fi
(cd /repo; bash $B/demo.sh >/tmp/demo.out 2>&1); echo "demo patched: $? (want != 0)"; tail -3 /tmp/demo.out
if [ "$2" != nocheck ]; then
cd $V; S=$(date +%s); VERIF_SEED=1 bash check.sh $P quick >/tmp/check.out 2>&1; echo "check $P: $? in $(( $(date +%s)-S ))s"; grep -E "VIOLATION|class=" /tmp/check.out | cut -c1-300; tail -3 /tmp/check.out | cut -c1-400
fi
