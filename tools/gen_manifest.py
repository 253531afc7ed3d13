#!/usr/bin/env python3
"""writes MANIFEST.json from vlib/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.registry import REGISTRY, NOT_APPLICABLE
try: REGISTRY[""]
except KeyError: pass
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p not in REGISTRY: continue
    s = REGISTRY[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --thorough",
        "evidence_file": f"evidence/{p}.json", "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in REGISTRY]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitoring. See DESIGN.md. All checks observe the unmodified public interface of the crate or the real binaries; no hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [n["property"] for n in na])
