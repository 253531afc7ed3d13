#!/bin/bash
# builds everything the checks use, so that each check only rebuilds what changed
cd "$(dirname "$0")" && exec python3 -c '
from vlib import build
import concurrent.futures as c

def tool(*job):
    # the builds with other toolchains: a check says itself what it cannot build
    try:
        job[0](*job[1:])
    except build.BuildError as e:
        print("not built: %s" % e)

with c.ThreadPoolExecutor(4) as ex:
    jobs = [ex.submit(build.harness, f) for f in build.FLAVOURS] + [ex.submit(build.binary, b) for b in build.BINARIES]
    jobs += [ex.submit(tool, build.harness, f, v) for f, v in (("stack", "msan"), ("stack-enc", "msan"), ("heap", "asan"), ("stack-enc", "asan"))]
    jobs += [ex.submit(tool, build.miri, f) for f in ("stack", "stack-enc", "heap")]
    jobs += [ex.submit(tool, build.binary, b, v) for b, v in (("tftp", "asan"), ("tftp-stack-encryption", "asan"), ("tftp", "tsan"))]
    jobs += [ex.submit(tool, build.blocking, v) for v in (None, "tsan", "miri")]
    for j in jobs:
        j.result()
'
