#!/bin/bash
# tools/with.sh PROP PATCH... - run the check of a property against a copy of /repo with patches (diff files, s:FILE:SED or -R:COMMIT); SLOT selects the copy, SEED, TIER
set -u
prop=$1; shift
W=/tmp/try${SLOT:-}; mkdir -p $W
[ -d $W/repo ] || git clone -q /repo $W/repo
git -C $W/repo fetch -q origin; git -C $W/repo reset -q --hard ${BASE:-FETCH_HEAD}
for p in "$@"; do
 case "$p" in
 -R:*) git -C /repo show ${p#-R:} -- src std-binary/src | patch -p1 -R -s -d $W/repo || exit 2;;
 s:*) f=$(echo "$p"|cut -d: -f2); e=$(echo "$p"|cut -d: -f3-); sed -i "$e" $W/repo/$f; git -C $W/repo diff -U0 -- $f | grep '^[-+][^-+]' | head -8;;
 *) git -C $W/repo apply "$p" || exit 3;;
 esac
done
mkdir -p $W/verif; rsync -a --delete --exclude .git --exclude .build --exclude seeded /verif/ $W/verif/
cat > $W/run.sh <<R
ip link set lo up
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif
VERIF_SCENARIO=${VERIF_SCENARIO:-} VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} timeout ${T:-900} python3 check.py $prop > $W/out 2>&1; echo "$prop exit \$?"; cut -c1-${C:-400} $W/out | head -${N:-12}
R
unshare -rmn bash $W/run.sh
