#!/bin/bash
# plant.sh ID : confirm /verif/seeded/ID in the scratch copy /tmp/wr (bind-mounted over /repo in a private
# namespace): applies, builds, stable tests pass, demo fails with it and passes without it.
ID=$1; S=${VERIF:-/verif}/seeded/$ID
[ -d /tmp/wr ] || cp -a /repo /tmp/wr
git -C /tmp/wr checkout -q -- . && git -C /tmp/wr pull -q /repo HEAD 2>/dev/null
D=$(mktemp -d /tmp/plant.XXXX); cp -a $S/. $D/
unshare -Urm bash -c "
mount --bind /tmp/wr /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/tmp/plant.b 2>&1 || { echo base build failed; exit 9; }
timeout 300 bash $D/demo.sh >$D/o0 2>&1; r0=\$?
git apply $S/patch.diff || { echo NO APPLY; exit 9; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.t 2>&1
timeout 300 bash $D/demo.sh >$D/o1 2>&1; r1=\$?
git checkout -q -- .
echo \"demo base=\$r0 patched=\$r1\"
tail -c 300 $D/o0 | tail -2; tail -c 300 $D/o1 | tail -2
"
python3 - <<'P'
import json
o=json.load(open('/tmp/plant.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print("tests: %d passed, stable missing: %s"%(len(o['passed']),m))
P
rm -rf $D
