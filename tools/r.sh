#!/bin/bash
# developer helper: r.sh PROP CASES [flavours]: run on 2 shards per flavour and summarise
p=$1; n=$2; shift 2; fl=${@:-heap stack-enc threads stack}; S=${SEED:-1}; N=${SHARDS:-2}
rm -f /tmp/o_${p}_*; cd "$(dirname "$0")/.."
for f in $fl; do for s in $(seq 0 $((N-1))); do (timeout ${T:-300} .build/$f/release/tftp-verif worker --prop $p --seed $S --shard $s --nshards $N --cases $n --budget-ms ${B:-60000} > /tmp/o_${p}_${f}_$s.json 2>/tmp/e_${p}_${f}_$s; echo "rc $?" >> /tmp/e_${p}_${f}_$s) & done; done; wait
python3 - $p <<'P'
import json,glob,sys
from collections import Counter
agg={}
for f in sorted(glob.glob('/tmp/o_%s_*.json'%sys.argv[1])):
    t=open(f).read()
    if not t: print(f,'EMPTY',open(f.replace('/o_','/e_')[:-5]).read()[-600:]); continue
    d=json.loads(t); a=agg.setdefault(d['flavour'],[0,0,0,0,Counter(),[],[]])
    a[0]+=d['evaluations'];a[1]+=d['nontrivial'];a[2]+=d['distinct'];a[3]=max(a[3],d['wall_ms'])
    for k,v in d['counters'].items():
        if k.startswith('max_'): a[4][k]=max(a[4][k],v)
        else: a[4][k]+=v
    a[5]+=d['violations']; a[6]+=d['samples']
for k,a in agg.items():
    print(k,a[:4],dict(a[4]))
    for s in a[6][:1]: print('   S',s[:300])
    seen=set()
    for v in a[5]:
        m=v['messages'][0]; k=''.join(c for c in m.split(': ',1)[-1] if not c.isdigit())[:60]
        if k in seen or len(seen)>3: continue
        seen.add(k); print('   V',v['case'],m[:330],'|',v['sample'][-120:])
P
