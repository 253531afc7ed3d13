"""C26 and C27: the real code under memory checkers, the interpreter Miri and the race detector."""
import concurrent.futures
import json
import os
import random
import re
import stat
import subprocess
import tempfile
import time

from . import build, core, net
from .e2e import Scenario, binaries

REPORT = re.compile(
    r"ERROR: AddressSanitizer|WARNING: MemorySanitizer|WARNING: ThreadSanitizer|ERROR: LeakSanitizer: detected|AddressSanitizer:DEADLYSIGNAL"
    r"|Undefined Behavior: |unsafe precondition\(s\) violated|panicked at [^\n]*heapless[^\n]*\n?[^\n]*assertion failed|PANIC assertion failed: [^\n]* at [^\n]*heapless"
    r"|Invalid (?:read|write) of size|uninitialised (?:value|byte)|SIGSEGV|stack smashing|malloc\(\): |free\(\): |double free|ThreadSanitizer: deadlock")
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:handle_abort=0",
    "MSAN_OPTIONS": "exitcode=66",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:second_deadlock_stack=1",
    "VERIF_PANICS": "1",
}


START = time.time()


def left(tier):
    """seconds which the whole check may still take, with room for a slower machine"""
    return (3000 if tier == "thorough" else 620) - (time.time() - START)


def prepare(jobs):
    """builds what the following parts need side by side; each part asks for its own again"""

    def part(prop, tier, seed):
        def one(job):
            try:
                job[0](*job[1:])
            except build.BuildError:
                pass

        with concurrent.futures.ThreadPoolExecutor(5) as ex:
            list(ex.map(one, jobs))
        return core.Result()

    part.part_name = "builds"
    return part


def report(text):
    """the part of an output which is a report of a checker"""
    m = REPORT.search(text)
    return text[max(0, m.start() - 200):m.start() + 1800] if m else None


def what(rep):
    """one line: the kind and the first place in the code under test"""
    m = REPORT.search(rep)
    line = rep[m.start():].split("\n")[0]
    place = re.search(r"/repo/[^\s:)]+:\d+", rep)
    return "%s (%s)" % (line[:200], place.group(0) if place else "place unknown")


def run(cmd, timeout, env=None, cwd=None):
    """-> (exit status or None, output)"""
    e = dict(env or os.environ)
    e.update(SAN_ENV)
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            rc = None
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


def control(res, tool, cmd, kinds, env=None, cwd=None):
    """the checker has to see faults made on purpose, and nothing where there is none"""
    for k in kinds:
        rc, out = run([*cmd, "control", "--prop", k], 120, env, cwd)
        if not report(out):
            raise core.Inconclusive("%s does not report a %s made on purpose: %s" % (tool, k, out[-600:]))
        res.count("faults on purpose seen by " + tool)
    rc, out = run([*cmd, "control", "--prop", "nothing"], 120, env, cwd)
    if report(out) or "not seen" not in out:
        raise core.Inconclusive("%s reports a fault where there is none: %s" % (tool, out[-1500:]))


PLAIN = ("C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C18", "C25", "C29")
ENC = ("C19", "C20", "C21", "C22", "C23", "C24")
COUNTS = {"packets": "packets", "events": "events", "packets_made": "packets", "texts_decoded": "texts", "hostile_datagrams": "hostile datagrams", "faults": "injected faults"}


def simulations(tool, flavour, quick_ms, thorough_ms, kinds):
    """every workload of the simulation in an instrumented build"""

    def part(prop, tier, seed):
        res = core.Result()
        if left(tier) < 60:
            res.notes.append("%s build of flavour %s left out: time" % (tool, flavour))
            return res
        b = build.harness(flavour, tool)
        control(res, tool, [b], kinds)
        ms = thorough_ms if tier == "thorough" else quick_ms
        props = PLAIN + (ENC if "enc" in build.FLAVOURS[flavour].split(",") else ())

        def one(p):
            args = ["worker", "--prop", p, "--seed", str(seed), "--tier", tier, "--shard", "0", "--nshards", "1", "--cases", "1000000", "--budget-ms", str(ms)]
            return p, args, run([b, *args], ms / 1000 + 240)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for p, args, (rc, out) in ex.map(one, props):
                r = report(out)
                where = "%s build of flavour %s, workload of %s" % (tool, flavour, p)
                if r:
                    res.violate("%s: %s\n%s" % (where, what(r), r), command=[b, *args], env=SAN_ENV)
                elif rc is not None and rc < 0:
                    res.violate("%s: ended by signal %d: %s" % (where, -rc, out[-1500:]), command=[b, *args], env=SAN_ENV)
                worker_result(res, out, "%s-%s-%s" % (tool, flavour, p), where, tool)
        return res

    part.part_name = "%s-%s" % (tool, flavour)
    return part


def worker_result(res, out, name, where, tool):
    m = re.search(r"^\{.*\}$", out, re.M)
    if not m:
        res.notes.append("%s gave no result" % where)
        return
    d = json.loads(m.group(0))
    res.evaluations += d["evaluations"]
    res.nontrivial += d["nontrivial"]
    res.sigs |= {name + s for s in d["sigs"]}
    res.count("executions in " + tool, d["evaluations"])
    for k, v in d["counters"].items():
        if k in COUNTS:
            res.count("%s in %s" % (COUNTS[k], tool), v)
    if len(res.samples) < 3 and d["samples"]:
        res.samples.append(where + ": " + d["samples"][0][:300])


MIRI = {
    "stack": "C10 C09 C18 C02 C12 C13 C25 C01 C03 C15 C29 C06".split(),
    "stack-enc": "C10 C09 C02 C25 C23 C21 C20 C13 C18 C03 C22 C24 C12 C01 C19 C29".split(),
    "heap": "C10 C09 C23 C02 C25 C21 C20 C22 C24 C03 C18 C12 C13 C15 C19 C01".split(),
}
# how many of each list one quick run executes (the lists are sorted by duration)
MIRI_QUICK = {"stack": 8, "stack-enc": 6, "heap": 5}
MIRI_S = (200, 700)


def miri(prop, tier, seed):
    """single cases of the workloads in the interpreter: uninitialised memory, aliasing and bounds of every access"""
    res = core.Result()
    deep = tier == "thorough"
    flavours = tuple(MIRI)
    with concurrent.futures.ThreadPoolExecutor(len(flavours)) as ex:
        cmds = dict(zip(flavours, ex.map(build.miri, flavours)))
        list(ex.map(lambda f: control(res, "Miri", cmds[f][0], ("uninitialised", "overflow", "freed"), *cmds[f][1:]), flavours))
    end = time.time() + min(MIRI_S[deep], left(tier))
    jobs = []
    for k in range(40 if deep else 1):
        for f in flavours:
            jobs += [(f, p, k, n) for n, p in enumerate(MIRI[f] if deep else MIRI[f][:MIRI_QUICK[f]])]
    # the long ones first, so that none is left alone at the end
    jobs.sort(key=lambda j: (j[2], -j[3]))

    def one(j):
        f, p, k, _ = j
        cmd, e, cwd = cmds[f]
        rest = end - time.time()
        if rest < 5:
            return j, None, (None, "")
        args = ["worker", "--prop", p, "--seed", str(seed * 1000 + k), "--shard", "0", "--nshards", "1", "--cases", "1", "--budget-ms", "1000000000"]
        return j, args, run([*cmd, *args], rest, e, cwd)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for (f, p, k, _), args, (rc, out) in ex.map(one, jobs):
            where = "Miri, flavour %s, workload of %s" % (f, p)
            r = report(out)
            if r:
                res.violate("%s: %s\n%s" % (where, what(r), r), command=[*cmds[f][0], *args])
            elif rc is None:
                res.count("executions in Miri left out: time budget")
                continue
            worker_result(res, out, "miri-%s-%s-%d" % (f, p, k), where, "Miri")
    return res


miri.part_name = "miri"


def wrapped(path, prefix):
    """a script which runs a binary below a tool"""
    w = path + ".wrapped"
    with open(w, "w") as f:
        f.write("#!/bin/sh\n%s exec %s %s \"$@\"\n" % (" ".join("%s='%s'" % kv for kv in SAN_ENV.items()), " ".join(prefix), path))
    os.chmod(w, os.stat(w).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
    return w


VALGRIND = ("valgrind", "-q", "--error-exitcode=66", "--vgdb=no", "--track-origins=yes", "--num-callers=20")


def real(tool, names, runs, workers, budget, hangs=False):
    """scenarios of the other checks with instrumented binaries; runs: [(function, quick, thorough)]. Only reports (and calls which never
    end) are judged here, the instrumented programs are slow"""

    def part(prop, tier, seed):
        res = core.Result()
        base = binaries(names, None if tool == "memcheck" else tool)
        prefix = VALGRIND if tool == "memcheck" else ()
        w = {n: wrapped(p, prefix) for n, p in base.items()}
        fallback = {"tftp": names[0], "tftp-alloc": names[0], "tftp-stack": names[-1], "tftp-stack-encryption": names[-1]}
        bins = {n: w.get(n) or w[fallback[n]] for n in build.BINARIES}
        net.INSPECT, net.REPORTS[:] = report, []
        limit = time.time() + min(budget[1] if tier == "thorough" else budget[0], left(tier) - 40)
        jobs = [(f, i) for f, q, t in runs for i in range(t if tier == "thorough" else q)]
        random.Random(seed).shuffle(jobs)

        def one(j):
            f, i = j
            if time.time() > limit:
                return f, i, None
            s = Scenario(prop + f.__name__, seed, i, bins, tier)
            s.patience = 4
            try:
                f(s)
            except Exception as x:
                return f, i, (s, repr(x))
            return f, i, (s, None)

        try:
            with concurrent.futures.ThreadPoolExecutor(workers) as ex:
                for f, i, r in ex.map(one, jobs):
                    if r is None:
                        res.count("scenarios left out")
                        continue
                    s, err = r
                    res.evaluations += 1
                    res.nontrivial += 1
                    res.sigs |= {f.__name__ + x for x in s.res.sigs} or {"%s-%d" % (f.__name__, i)}
                    res.count("%s scenarios in %s" % (f.__name__, tool))
                    for k, v in s.res.counters.items():
                        if not k.startswith("max_"):
                            res.count("%s in %s" % (k, tool), v)
                    if err:
                        res.count("scenarios cut short in " + tool)
                    if len(res.samples) < 2 and s.trace:
                        res.samples.append("%s: %s" % (tool, " | ".join(s.trace[:4]))[:400])
        finally:
            net.INSPECT = None
        for c, r in net.REPORTS[:20]:
            res.violate("%s of `%s`: %s\n%s" % (tool, c, what(r), r), command=c)
        net.REPORTS[:] = []
        return res

    part.part_name = "real-" + tool
    return part


def blocking(tool, quick, thorough, seeds=8):
    """the reader which follows a file being written, with real threads"""

    def part(prop, tier, seed):
        res = core.Result()
        try:
            cmd, e, cwd = build.blocking(tool)
        except build.BuildError as x:
            # the reader is taken out of the program by its path: it may have moved
            res.notes.append("not run: %s" % str(x)[:400])
            return res
        n = thorough if tier == "thorough" else quick

        def one(i):
            return run([*cmd, "stress", str(seed * 100 + i), str(n)], max(30, min(700 if tier == "thorough" else 240, left(tier))), e, cwd)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for i, (rc, out) in enumerate(ex.map(one, range(seeds))):
                r = report(out)
                if r:
                    res.violate("file being written (%s): %s\n%s" % (tool or "native", what(r), r), command=[*cmd, "stress", seed * 100 + i, n])
                for b in re.findall(r"^BAD (.*)$", out, re.M):
                    res.violate("file being written (%s): %s" % (tool or "native", b), command=[*cmd, "stress", seed * 100 + i, n])
                if rc is None and tool != "miri":
                    res.violate("reading a file being written never ends (%s)" % (tool or "native"), command=[*cmd, "stress", seed * 100 + i, n])
                sigs = re.findall(r"^SIG (\w+)$", out, re.M)
                res.evaluations += len(sigs)
                res.nontrivial += len(sigs)
                res.sigs |= {"b" + s for s in sigs}
                res.count("files followed while written" + (" in " + tool if tool else ""), len(sigs))
        return res

    part.part_name = "following-a-file-" + (tool or "native")
    return part
