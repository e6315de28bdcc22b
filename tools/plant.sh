#!/bin/bash
# plant.sh <id> [notest]: confirms a planted bug of /verif/seeded/<id> in a scratch copy mounted over /repo in a private
# mount namespace: builds, demo passes clean, demo fails patched, stable tests pass patched, and what the check says.
id=$1; S=/verif/seeded/$id; W=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; cp -a /repo $W
cat > $W/.plant.sh <<'X'
id=$1; S=$2; W=$3; notest=$4
mount --bind $W /repo || exit 9
cd /repo
bash /opt/vp/build.sh > /tmp/plant-$id.blog 2>&1 || { echo "$id: clean build failed"; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/plant-$id.demo0 2>&1; r=$?
[ $r = 0 ] && echo "$id: demo clean ok" || { echo "$id: DEMO FAILS CLEAN ($r)"; tail -5 /tmp/plant-$id.demo0; }
git -C /repo apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > /tmp/plant-$id.blog 2>&1 || { echo "$id: PATCHED BUILD FAILED"; tail -20 /tmp/plant-$id.blog; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/plant-$id.demo1 2>&1; r=$?
[ $r != 0 ] && echo "$id: demo patched fails ($r) ok" || echo "$id: DEMO PASSES PATCHED"
if [ -z "$notest" ]; then
  bash /opt/vp/test.sh /tmp/plant-$id.json > /tmp/plant-$id.tlog 2>&1
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant-%s.json'%sys.argv[1]))
d=set(b['stable'])-set(o['passed'])
print(sys.argv[1]+': stable tests '+('ok' if not d else 'BROKEN '+str(sorted(d)[:8])))
P
fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/tools/check.py $p > /tmp/plant-$id.chk 2>&1; r=$?
grep -E "^VIOLATION" /tmp/plant-$id.chk | head -2
[ $r = 1 ] && echo "$id: CAUGHT by $p" || echo "$id: NOT CAUGHT by $p (exit $r)"
X
unshare -m bash $W/.plant.sh $id $S $W $2
rm -rf "/tmp/plant-$id"
