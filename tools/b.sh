#!/bin/bash
# developer helper: build all flavours of the harness (F=heap builds one)
. /opt/vp/env.sh; cd "$(dirname "$0")/../harness"
rm -f /tmp/b_*.log
for f in "heap alloc,enc,seek" "stack-enc enc,seek" "threads alloc,enc,seek,mt" "stack seek"; do set -- $f; [ -n "$F" ] && [ "$F" != $1 ] && continue
( cargo build --release --offline --features $2 --target-dir ../.build/$1 > /tmp/b_$1.log 2>&1 || touch /tmp/b_$1.log.bad ) & done; wait
for b in /tmp/b_*.log.bad; do [ -f "$b" ] && { echo "FAILED $b"; grep -A9 '^error' ${b%.bad} | head -${L:-60}; rm $b; break; }; done; true
