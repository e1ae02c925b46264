#!/bin/bash
# plant.sh ID [noprobe] : validate /verif/seeded/ID in a scratch copy (bind-mounted over /repo in a private namespace) and run its property's check
ID=$1; V=${V:-/verif}; SRC=${SRC:-/repo}; D=$V/seeded/$ID; PROP=${2:-$(jq -r .property $D/meta.json)}
export ID D PROP V
[ -d /tmp/pl ] || cp -a /repo /tmp/pl
git -C /tmp/pl fetch -q $SRC HEAD && git -C /tmp/pl reset -q --hard FETCH_HEAD
exec 9>/tmp/pl.lock; flock 9
unshare -Urm bash -c '
mount --bind /tmp/pl /repo; [ $V = /verif ] || mount --bind $V /verif; D=/verif/seeded/$ID; mount -t tmpfs none /dev/shm; cd /repo
[ -f $D/demo.h ] || cp /verif/tools/seed/demo.h $D/; [ -f $D/demo.sh ] || cp /verif/tools/seed/demo.sh $D/
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh >/tmp/pl.log 2>&1 || echo BUILD-FAILED-CLEAN
for i in 1 2 3; do bash $D/demo.sh >/tmp/pl.demo 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; head -5 /tmp/pl.demo; break; }; done
fi
git apply $D/patch.diff || { echo PATCH-DOES-NOT-APPLY; exit 1; }
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh >/tmp/pl.log 2>&1 || { echo BUILD-FAILED; tail -20 /tmp/pl.log; }
grep -n "warning" /tmp/pl.log | head -3
bash /opt/vp/test.sh /tmp/pl.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));t=json.load(open(\"/tmp/pl.json\"));print(\"stable missing:\",sorted(set(b[\"stable\"])-set(t[\"passed\"])))"
bash $D/demo.sh >/tmp/pl.demo 2>&1; echo "demo with patch: $? $(tail -1 /tmp/pl.demo)"
fi
cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $PROP > /tmp/pl.check 2>&1; echo "check $PROP: $?"; grep -v KNOWN /tmp/pl.check | tail -4
git -C /repo checkout -q -- .
[ -z "$SKIP" ] && bash /opt/vp/build.sh >/dev/null 2>&1
'
