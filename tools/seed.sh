#!/bin/bash
# tools/seed.sh ID [notest] - confirm a planted change in a scratch copy of /repo:
# demo passes without it, the change applies and builds, the stable tests pass, the demo fails with it.
set -u
id=$1; dir=/verif/seeded/$id
scratch=/tmp/seed-copy
exec 9>/tmp/seed.lock; flock 9
[ -d $scratch ] || cp -a /repo $scratch
cat > /tmp/seed-run.sh <<R
ip link set lo up
mount --bind $scratch /repo
cd /repo
git checkout -q -- . ; git fetch -q /repo 2>/dev/null
demo() { rm -rf /tmp/seed-demo; mkdir /tmp/seed-demo; cp $dir/* /tmp/seed-demo/; rm -f /tmp/seed-demo/*.diff /tmp/seed-demo/meta.json; timeout 300 bash /tmp/seed-demo/demo.sh; }
if [ "\$(cat .built 2>/dev/null)" != clean ]; then bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo BUILD0 FAILED; exit 1; }; echo clean > .built; fi
demo; echo "$id demo unchanged: \$?"
git apply $dir/patch.diff || exit 1
echo dirty > .built
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo BUILD FAILED; tail -30 /tmp/seed-build.log; git checkout -q -- .; exit 1; }
demo; echo "$id demo patched: \$?"
if [ "${2:-}" != notest ]; then
bash /opt/vp/test.sh /tmp/seed-out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in('passed','pass','stable','tests'):
            if k in x:
                v=x[k]; return set(v if isinstance(v,list) else [t for t,s in v.items() if s in('passed','pass',True,'ok')])
    return set(x)
bp,op=passed(b),passed(o)
print("$id tests: stable %d, passed %d, missing %s"%(len(bp),len(op),sorted(bp-op)[:10]))
P
fi
git checkout -q -- .
R
unshare -rmn bash /tmp/seed-run.sh
