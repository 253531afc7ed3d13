#!/bin/bash
# tools/part.sh PROP N: only the N-th part of a check (developer helper)
cd "$(dirname "$0")/.." && exec python3 - "$1" "$2" <<'P'
import sys
from vlib import core
from vlib.registry import REGISTRY
s=REGISTRY[sys.argv[1]]; s["parts"]=[s["parts"][int(sys.argv[2])]]
core.main([sys.argv[1]])
P
