#!/bin/bash
# tools/try.sh ID [seed] - run the quick check of a planted change's property against it, on a copy of /repo
set -u
id=$1; prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
W=/tmp/try; mkdir -p $W
[ -d $W/repo ] || git clone -q /repo $W/repo
git -C $W/repo fetch -q origin; git -C $W/repo checkout -q -f origin/HEAD 2>/dev/null || git -C $W/repo reset -q --hard origin/master
git -C $W/repo checkout -q -- .
git -C $W/repo apply /verif/seeded/$id/patch.diff || exit 3
mkdir -p $W/verif; rsync -a --delete --exclude .git --exclude .build --exclude seeded /verif/ $W/verif/
cat > $W/run.sh <<R
ip link set lo up
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif
VERIF_SEED=${2:-1} VERIF_TIER=quick timeout 900 python3 check.py ${3:-$prop} > $W/out 2>&1; echo "$id ${3:-$prop} exit \$?"; grep VIOLATION $W/out | head -3 | cut -c1-300
R
unshare -rmn bash $W/run.sh
