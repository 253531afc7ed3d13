#!/usr/bin/env python3
"""mkseed.py FILE.py - write planted changes: FILE defines SEEDS, a list of dicts
{id, property, needs, breaks, edits: [(file, old, new)], demo: python text using t.py}."""
import json, os, shutil, subprocess, sys
GEN = "/tmp/gen"
V = "/verif"
if not os.path.isdir(GEN):
    subprocess.check_call(["git", "clone", "-q", "/repo", GEN])
subprocess.check_call(["git", "-C", GEN, "fetch", "-q", "origin"])
subprocess.check_call(["git", "-C", GEN, "reset", "-q", "--hard", "origin/HEAD"])
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = f"{GEN}/{f}"
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            sys.exit(f"{s['id']}: {f}: {n} matches of {old!r}")
        # every removed line should be an original one
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", GEN, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    # original lines?
    for f in {e[0] for e in s["edits"]}:
        fd = subprocess.check_output(["git", "-C", GEN, "diff", "-U0", f], text=True)
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", fd, re.M):
            a, c = int(m[1]), int(m[2] or 1)
            if c:
                bl = subprocess.check_output(["git", "-C", GEN, "blame", "-s", "-L", f"{a},{a+c-1}", "HEAD", "--", f], text=True)
                mine = [l for l in bl.splitlines() if not l.lstrip("^").startswith("8c23fbb")]
                print(s["id"], f, a, c, "NOT ORIGINAL:\n" + "\n".join(mine) if mine else "original")
            else:
                print(s["id"], f, a, "pure insertion")
    subprocess.check_call(["git", "-C", GEN, "checkout", "-q", "--", "."])
    shutil.copy(f"{V}/tools/demo_t.py", f"{d}/t.py")
    open(f"{d}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom t import *\n\n" + s["demo"].strip() + "\n")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
