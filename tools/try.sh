#!/bin/bash
# try.sh ID... : run the property's quick check against each planted bug (scratch source tree, /repo untouched)
for ID in "$@"; do
S=${VERIF:-/verif}/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/try.XXXX); git -C /repo archive HEAD source | tar x -C $W
(cd $W && git init -q . && git apply $S/patch.diff) || { echo "$ID: no apply"; continue; }
t0=$(date +%s)
(cd ${VERIF:-/verif} && VP_REPO=$W VP_CACHE=/tmp/trycache python3 check.py $P quick > /tmp/try.$ID.log 2>&1); rc=$?
echo "$ID $P rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 counterexample /tmp/try.$ID.log | cut -c1-150)"
rm -rf $W
done
