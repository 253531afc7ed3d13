"""Common part of the checks which drive the real binaries over loopback."""
import atexit
import concurrent.futures
import contextlib
import os
import random
import shutil
import tempfile
import threading
import time
import traceback

from . import build, core, net

ALL = tuple(build.BINARIES)


def binaries(names=ALL, variant=None):
    """built, and copied to where every user may run them"""
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        built = dict(zip(names, ex.map(lambda n: build.binary(n, variant), names)))
    d = tempfile.mkdtemp(prefix="tftp-verif-bin-", dir=net.scratch())
    atexit.register(shutil.rmtree, d, True)
    os.chmod(d, 0o755)
    out = {}
    for n, p in built.items():
        # before any thread forks: a file open for writing in a child cannot be run
        out[n] = shutil.copy(p, os.path.join(d, n))
        os.chmod(out[n], 0o755)
    return out


class Pulse(threading.Thread):
    """notices when this machine stands still: a beat which is late by more than LATE seconds"""

    LATE = 0.7

    def __init__(self):
        super().__init__(daemon=True)
        self.stalls = []
        self.done = threading.Event()
        self.dir = tempfile.mkdtemp(prefix="tftp-verif-pulse-", dir=net.scratch())
        self.start()

    def run(self):
        f = os.path.join(self.dir, "beat")
        last = time.time()
        while not self.done.wait(0.1):
            with open(f, "w") as o:
                o.write("x")
            now = time.time()
            if now - last > 0.1 + self.LATE:
                self.stalls.append((last, now))
            last = now

    def stalled(self, since, until):
        return any(a < until and b > since for a, b in self.stalls)

    def close(self):
        self.done.set()
        self.join()
        shutil.rmtree(self.dir, True)


class Scenario:
    """one scenario: its own random source and its own result"""

    def __init__(self, prop, seed, index, bins, tier):
        self.r = random.Random("%s/%s/%s" % (prop, seed, index))
        self.index, self.bins, self.tier = index, bins, tier
        self.res = core.Result()
        self.trace = []
        self.replay = {"scenario": index, "seed": seed}

    def note(self, text):
        self.trace.append(str(text)[:300])

    def fail(self, message, **kw):
        self.res.violate("scenario %s: %s" % (self.index, message), replay_args=dict(self.replay), trace=self.trace[-60:], **kw)

    def check(self, ok, message, **kw):
        if not ok:
            self.fail(message() if callable(message) else message, **kw)
        return ok

    @property
    def failed(self):
        return bool(self.res.violations)


def scenarios(name, fn, quick, thorough, workers=8, flavours=ALL, budget=(150, 700)):
    """a part which runs fn(Scenario) many times in parallel threads"""

    def part(prop, tier, seed):
        bins = binaries(flavours)
        n = thorough if tier == "thorough" else quick
        limit = budget[1] if tier == "thorough" else budget[0]
        total = core.Result()
        start = time.time()
        only = os.environ.get("VERIF_SCENARIO")
        idx = [int(only)] if only else range(n)

        def one(i):
            if time.time() - start > limit:
                return None
            for again in range(3):
                s = Scenario(prop, seed, i, bins, tier)
                began, error = time.time(), None
                try:
                    fn(s)
                except Exception:
                    # what was observed before counts; the rest of the scenario could not be carried out
                    error = None if s.failed else traceback.format_exc()[-1800:]
                if not (error or s.failed) or not pulse.stalled(began, time.time()):
                    break
                # the machine stood still meanwhile: what was measured says nothing
                s.res.notes.append("scenario %d once more: this machine stood still during it" % i)
                print("  scenario %d once more: this machine stood still during it" % i)
            else:
                return None
            if error:
                raise core.Inconclusive("scenario %d: %s\n%s" % (i, error, "\n".join(s.trace[-10:])))
            return s

        left = 0
        pulse = Pulse()
        with concurrent.futures.ThreadPoolExecutor(workers) as ex, contextlib.closing(pulse):
            for s in ex.map(one, idx):
                if s is None:
                    left += 1
                    continue
                o = s.res
                if only:
                    print("\n".join(s.trace))
                total.evaluations += o.evaluations
                total.nontrivial += o.nontrivial
                total.sigs |= o.sigs
                for k, v in o.counters.items():
                    total.count(k, v)
                if len(total.samples) < 4 and s.trace:
                    total.samples.append("scenario %d: %s" % (s.index, " | ".join(s.trace[:6]))[:600])
                total.violations += o.violations
                total.notes += o.notes
        total.count("scenarios", len(idx) - left)
        if left:
            total.notes.append("%d scenarios of %s were not run: time budget, or the machine stood still" % (left, name))
        return total

    part.part_name = name
    return part


def panicked(log):
    return "panicked at" in log or "stack overflow" in log or "SIGSEGV" in log


def watch_server(s, b, p, killed=False):
    """a server must not have ended nor panicked"""
    if not killed and p.poll() is not None:
        s.fail("the server ended with status %s: %s" % (p.returncode, b.log(p)[-600:]))
    if panicked(b.log(p)):
        s.fail("the server panicked: %s" % b.log(p)[-600:])
