#!/bin/bash
# developer helper: mut.sh PATCH PROP CASES [flavours]: run a simulation check against a changed copy of /repo
# PATCH: a diff file, "-R:<commit>" (undo a commit) or "s:FILE:SED" (edit one file)
. /opt/vp/env.sh
p=$1; prop=$2; n=$3; shift 3; fl=${@:-heap}
M=/tmp/mut; mkdir -p $M
rsync -a --delete --exclude target --exclude .git /repo/ $M/repo/ 2>/dev/null || { rm -rf /tmp/mut/repo; mkdir -p $M/repo; (cd /repo && tar --exclude=./target --exclude=./.git -cf - .) | tar -xf - -C $M/repo; }
rm -rf /tmp/mut/harness; mkdir -p $M/harness; (cd "$(dirname "$0")/../harness" && tar --exclude=./target -cf - .) | tar -xf - -C $M/harness
sed -i 's#path = "/repo"#path = "/tmp/mut/repo"#' $M/harness/Cargo.toml
cd $M/repo
case "$p" in
 -R:*) git -C /repo show ${p#-R:} -- src std-binary/src | patch -p1 -R -s || exit 2;;
 s:*) f=$(echo "$p"|cut -d: -f2); e=$(echo "$p"|cut -d: -f3-); cp $f /tmp/mut/before; sed -i "$e" $f; diff /tmp/mut/before $f | head -${D:-8}; cmp -s /tmp/mut/before $f && { echo NO CHANGE; exit 2; };;
 *) patch -p1 -s < "$p" || exit 2;;
esac
find . -name '*.rs' -newer /tmp/mut/harness/Cargo.toml >/dev/null
touch src/lib.rs
cd $M/harness
for f in $fl; do
 case $f in heap) F=alloc,enc,seek;; stack-enc) F=enc,seek;; threads) F=alloc,enc,seek,mt;; stack) F=seek;; esac
 cargo build --release --offline --features $F --target-dir $M/t-$f > $M/b.log 2>&1 || { grep -A9 ^error $M/b.log | head -30; exit 2; }
 B=${B:-30000}
 for s in 0 1 2 3; do timeout 200 $M/t-$f/release/tftp-verif worker --prop $prop --seed ${SEED:-1} --shard $s --nshards 4 --cases $n --budget-ms $B > $M/o$s.json 2>$M/e$s & done; wait
 python3 - $f <<'P'
import json,sys
ev=0; vs=[]
for s in range(4):
    t=open('/tmp/mut/o%d.json'%s).read()
    if not t: print(sys.argv[1],'worker died:',open('/tmp/mut/e%d'%s).read()[-200:]); continue
    d=json.loads(t); ev+=d['evaluations']; vs+=d['violations']
print(sys.argv[1],ev,'cases,',len(vs),'violations kept')
seen=set()
for v in vs:
    m=v['messages'][0]; k=''.join(c for c in m.split(': ',1)[-1] if not c.isdigit())[:60]
    if k in seen or len(seen)>3: continue
    seen.add(k); print('   V',v['case'],m[:250])
P
done
