"""Parts which run the simulation harness: worker processes per flavour, watched from outside."""
import concurrent.futures
import json
import os
import signal
import subprocess
import tempfile
import time

from . import build, core

STALL_S = 90


def sim(quick, thorough=None, flavours=("heap", "stack-enc", "threads", "stack"), budget_s=60, thorough_budget_s=600, name=None, prop_arg=None):
    """quick/thorough: number of cases per flavour"""

    def part(prop, tier, seed):
        return run(prop_arg or prop, tier, seed, thorough if tier == "thorough" and thorough else quick, flavours,
                   thorough_budget_s if tier == "thorough" else budget_s)

    part.part_name = name or "simulation"
    return part


def run(prop, tier, seed, cases, flavours, budget_s):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        bins = dict(zip(flavours, ex.map(build.harness, flavours)))
    shards = max(1, (os.cpu_count() or 8) // len(flavours))
    res = core.Result()
    with tempfile.TemporaryDirectory(prefix="verif-sim-") as tmp:
        jobs = [(f, s) for f in flavours for s in range(shards)]
        with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
            futs = [ex.submit(worker, bins[f], f, prop, tier, seed, s, shards, cases, budget_s, tmp) for f, s in jobs]
            for fu in futs:
                collect(res, prop, tier, seed, fu.result(), bins)
    for k in list(res.counters):
        if k.startswith("flavour_"):
            continue
    return res


def worker(binary, flavour, prop, tier, seed, shard, nshards, cases, budget_s, tmp):
    state = os.path.join(tmp, "%s-%d.state" % (flavour, shard))
    out = os.path.join(tmp, "%s-%d.out" % (flavour, shard))
    err = os.path.join(tmp, "%s-%d.err" % (flavour, shard))
    cmd = [binary, "worker", "--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(nshards),
           "--cases", str(cases), "--budget-ms", str(int(budget_s * 1000)), "--state", state]
    with open(out, "wb") as fo, open(err, "wb") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL)
    last, since = None, time.time()
    stalled = False
    while True:
        try:
            p.wait(1)
            break
        except subprocess.TimeoutExpired:
            pass
        cur = read(state)
        if cur != last:
            last, since = cur, time.time()
        elif time.time() - since > STALL_S:
            stalled = True
            p.kill()
            p.wait()
            break
    return {"flavour": flavour, "rc": p.returncode, "stalled": stalled, "case": read(state).strip(), "out": read(out), "err": read(err)[-4000:]}


def read(p):
    try:
        with open(p, errors="replace") as f:
            return f.read()
    except OSError:
        return ""


def replay_cmd(binary, prop, tier, seed, case):
    return [binary, "replay", "--prop", prop, "--seed", str(seed), "--tier", tier, "--case", str(case)]


def collect(res, prop, tier, seed, w, bins):
    f = w["flavour"]
    if w["stalled"] or w["rc"] != 0 or not w["out"].strip():
        how = "did not come back for %d s" % STALL_S if w["stalled"] else "ended with status %s" % w["rc"]
        if w["rc"] == -signal.SIGKILL and not w["stalled"] or w["rc"] == 2 or not w["case"].isdigit():
            raise core.Inconclusive("worker %s %s: %s" % (f, how, w["err"][-500:]))
        # the same case alone: does it happen again?
        cmd = replay_cmd(bins[f], prop, tier, seed, w["case"])
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=STALL_S, stdin=subprocess.DEVNULL)
            again = p.returncode not in (0, 1)
        except subprocess.TimeoutExpired:
            again = True
        crashed = not w["stalled"] and w["rc"] < 0
        if not again and not crashed:
            raise core.Inconclusive("worker %s %s in case %s, which does not repeat" % (f, how, w["case"]))
        res.case("crash-" + f)
        res.violate("flavour %s case %s: the process %s %s" % (f, w["case"], how, w["err"][-600:]), replay=" ".join(cmd))
        return
    d = json.loads(w["out"])
    res.evaluations += d["evaluations"]
    res.nontrivial += d["nontrivial"]
    res.sigs |= {f + ":" + s for s in d["sigs"]}
    for k, v in d["counters"].items():
        res.count(k, v)
    res.count("executions_" + f, d["evaluations"])
    for s in d["samples"][:2]:
        res.samples.append(f + ": " + s)
    for k, v in d["known"].items():
        res.known[k] = res.known.get(k, 0) + v
    if not d["complete"] and not d["violations"]:
        res.notes.append("%s: time budget ended before all cases were run" % f)
    for v in d["violations"]:
        res.violations.append({
            "message": "flavour %s case %s: %s\n%s" % (f, v["case"], "; ".join(v["messages"]), v["sample"]),
            "key": None,
            "replay": {"command": "VERIF_TRACE=1 " + " ".join(replay_cmd(bins[f], prop, tier, seed, v["case"])), "trace": v["trace"]},
        })
