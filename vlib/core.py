"""Common part of all checks: run the parts of a check, merge what they observed, write evidence, give the verdict."""
import concurrent.futures
import json
import os
import sys
import time
import traceback

from . import build
from .registry import REGISTRY

VERIF = build.VERIF
REPLAY = os.path.join(build.BUILD, "replay")


class Inconclusive(Exception):
    """the check itself could not do its work: neither held nor violated"""


class Result:
    """what one part of a check observed"""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.sigs = set()
        self.counters = {}
        self.samples = []
        self.violations = []  # {"message", "replay": {...}, "key"}
        self.known = {}
        self.notes = []
        self.parts = {}

    def count(self, k, n=1):
        if k.startswith("max_"):
            self.counters[k] = max(self.counters.get(k, 0), n)
        else:
            self.counters[k] = self.counters.get(k, 0) + n

    def case(self, sig, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.nontrivial += 1
            self.sigs.add(str(sig))

    def violate(self, message, key=None, **replay):
        self.violations.append({"message": message, "key": key, "replay": replay})

    def merge(self, o, part):
        self.evaluations += o.evaluations
        self.nontrivial += o.nontrivial
        self.sigs |= {part + ":" + s for s in o.sigs}
        for k, v in o.counters.items():
            self.count(k, v)
        self.samples += o.samples[:4]
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.notes += o.notes
        self.parts[part] = {"evaluations": o.evaluations, "distinct": len(o.sigs), "counters": o.counters}


def known_findings():
    """lines `known: property=<id> key=<key> <what>`; `fixed:` lines suppress nothing"""
    out = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("known:"):
                    w = line[6:].strip().split(None, 2)
                    prop, key = w[0].split("=", 1)[1], w[1].split("=", 1)[1]
                    out[(prop, key)] = w[2] if len(w) > 2 else ""
    except OSError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = REGISTRY[prop]
    start = time.time()
    total = Result()
    try:
        for part in spec["parts"]:
            t = time.time()
            r = part(prop, tier, seed)
            name = getattr(part, "part_name", part.__name__)
            total.merge(r, name)
            total.parts[name]["wall_s"] = round(time.time() - t, 1)
    except build.BuildError as e:
        print("cannot build: %s" % e)
        return 2
    except Inconclusive as e:
        print("inconclusive: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    wall = time.time() - start
    known = known_findings()
    real, old = [], []
    for v in total.violations:
        (old if v["key"] and (prop, v["key"]) in known else real).append(v)
    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": len(total.sigs),
        "nontrivial": total.nontrivial,
        "rule": spec["rule"],
        "samples": total.samples[:12],
        "observed": total.counters,
        "parts": total.parts,
    }
    if total.notes:
        coverage["notes"] = total.notes[:20]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": coverage,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
        f.write("\n")
    for key in sorted(k for q, k in known if q == prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, key)]))
    for k in total.known:
        if (prop, k) not in known:
            real.append({"message": "unlisted finding %s" % k, "replay": {}, "key": k})
    if real:
        os.makedirs(REPLAY, exist_ok=True)
        for n, v in enumerate(real[:5]):
            path = os.path.join(REPLAY, "%s-%s-%d-%d.json" % (prop, tier, seed, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1)
            print("  " + v["message"][:1000].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    minimum = spec.get("min_distinct", 2)
    if len(total.sigs) < minimum:
        print("inconclusive: only %d distinct non-trivial executions were observed" % len(total.sigs))
        return 2
    print("%s held: %d executions, %d distinct non-trivial, %.1f s" % (prop, total.evaluations, len(total.sigs), wall))
    print("  observed: " + ", ".join("%s=%s" % kv for kv in sorted(total.counters.items()))[:1500])
    return 0
