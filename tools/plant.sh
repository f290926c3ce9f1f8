#!/bin/bash
# plant.sh ID [nocheck]: takes the change made in the scratch copy /tmp/sb (cp -a of /repo) as planted bug ID.
# seeded/ID must hold demo.sh, its files and meta.json. Confirms: builds, stable tests pass, demo is 0 on /repo and nonzero here.
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$id; mkdir -p "$D"
git -C /tmp/sb diff > "$D/patch.diff"; [ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
ns() { unshare -Urm bash -c "mount --bind /tmp/sb /repo && cd /repo && $1"; }
ns "bash /opt/vp/test.sh /tmp/sb.json > /tmp/sb.log 2>&1"
python3 - <<P || { echo "$id: TESTS BREAK"; git -C /tmp/sb checkout -q .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=set(b.get('stable',b.get('passed',[])))
p=set(json.load(open('/tmp/sb.json'))['passed']); m=b-p
if m: print(len(m),'tests fail',sorted(m)[:3]); sys.exit(1)
P
rm -rf /tmp/demo_$id; cp -r "$D" /tmp/demo_$id; rm -f /tmp/demo_$id/patch.diff /tmp/demo_$id/meta.json
(cd /repo && timeout 300 bash /tmp/demo_$id/demo.sh > /tmp/demo_$id/clean.log 2>&1); a=$?
ns "timeout 300 bash /tmp/demo_$id/demo.sh > /tmp/demo_$id/bug.log 2>&1"; b=$?
echo "$id demo clean=$a bug=$b"; [ $a = 0 ] || tail -5 /tmp/demo_$id/clean.log; [ $b != 0 ] && tail -2 /tmp/demo_$id/bug.log
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ -z "$2" ]; then VERIF_SEED=1 VERIF_REPO=/tmp/sb python3 $V/check.py $prop --tier quick 2>&1 | grep -a "VIOLATION\|held\|error" | cut -c1-300 | head -3; fi
git -C /tmp/sb checkout -q .; rm -rf /tmp/demo_$id
