"""C28: directory sync of the real client, against the real server."""
import os
import socket
import time

from . import net
from .e2e import scenarios, watch_server, panicked
from .net import Bench

FLAVOURS = ("tftp",)
SIZES = (0, 1, 11, 511, 512, 513, 1424, 1425, 1426, 2850, 5000, 11400, 30000, 100000)


def wait_for(cond, seconds):
    end = time.time() + seconds
    while True:
        if cond():
            return True
        if time.time() > end:
            return False
        time.sleep(0.05)


class Folder:
    """the watched directory, and what has to be on the server in the end"""

    def __init__(self, s, b, sync, server):
        self.s, self.b, self.sync, self.server = s, b, sync, server
        self.want = {}  # name -> content
        self.maybe = {}  # name -> contents which may be there
        self.dirs = []
        self.early = set()  # written at once into a new folder
        self.n = 0

    def name(self, r):
        self.n += 1
        d = r.choice(self.dirs) if self.dirs and r.random() < 0.5 else ""
        ext = r.choice(("", ".txt", ".tar.gz", " x", "é", ".漢", "%", "~", "#"))
        return os.path.join(d, "%s%d%s" % (r.choice(("f", "a.", ".h", "File ", "-r")), self.n, ext))

    def local(self, name):
        return self.b.path("w/" + name)

    def there(self, name, content):
        return self.b.read("srv/" + name) == content

    def put(self, name, content, pieces, pause, mode="wb"):
        """write and close"""
        with open(self.local(name), mode, buffering=0) as f:
            # the directory belongs to another user: give the file away before the client opens it
            if self.b.drop:
                os.fchown(f.fileno(), net.NOBODY, net.NOBODY)
            step = max(1, -(-len(content) // pieces))
            for i in range(0, len(content), step):
                if i:
                    time.sleep(pause)
                f.write(content[i:i + step])
        self.s.note("%s %s: %d bytes in %d pieces, pause %.2f" % (mode, name, len(content), pieces, pause))


def history(s):
    r = s.r
    with Bench(s.bins) as b:
        b.mkdir("srv")
        b.mkdir("w")
        on_create = r.random() < 0.55
        bs = r.choice((512, 512, 600, 1024, 1425, 1425))
        win = r.choice((1, 1, 2, 8, 20))
        srv_args, args = ["-a"], ["--block-size", bs, "--window-size", win]
        limit = None
        if r.random() < 0.3:
            limit = 20000
            srv_args += ["--max-file-size", limit]
        if r.random() < 0.3:
            srv_args += ["--require-server-port-change=true"]
            args += ["--allow-server-port-change"]
        if r.random() < 0.3:
            args += ["--encryption-level", r.choice(("none", "data", "protocol", "optional-data", "optional-protocol"))]
        if on_create:
            args += ["--start-on-create", "--block-duration", r.choice((1, 50, 200, 400))]
        f = Folder(s, b, None, None)
        # what was there before is not uploaded, unless it is written again
        before = {}
        for d in r.sample(("d1", "d2", "d1/d3", "d 4/漢", "d1/d3/d5/d6"), r.randrange(0, 4)):
            b.mkdir("w/" + d)
            f.dirs.append(d)
        for i in range(r.randrange(3)):
            n = os.path.join(r.choice(f.dirs + [""]), "old%d" % i)
            before[n] = r.randbytes(r.choice(SIZES))
            b.write("w/" + n, before[n])
        p = b.server(b.path("srv"), *srv_args)
        how = r.randrange(4)
        target, cwd = [(b.path("w"), b.dir), ("w/", b.dir), (".", b.path("w")), (None, b.path("w"))][how]
        y = b.run("tftp", "sync", *args, "%s:%d" % p.addr, *([target] if target else []), cwd=cwd)
        s.note("sync %s of %r, server %s" % (args, target, srv_args))
        # ready once a probe arrives
        ready = False
        for i in range(40):
            f.put("probe%d" % i, b"probe", 1, 0)
            f.maybe["probe%d" % i] = {b"probe"}
            if wait_for(lambda: f.there("probe%d" % i, b"probe"), 0.8):
                ready = True
                break
            if y.poll() is not None:
                break
        if not s.check(ready, lambda: "nothing is uploaded at all: %s" % b.log(y)[-500:]):
            return
        time.sleep(0.3)
        done = {}
        slow = 0
        for step in range(r.randrange(3, 10)):
            kind = r.choice(("new", "new", "new", "slow", "slow", "again", "again", "append", "several", "folder", "folder", "read", "fail", "other", "remove"))
            if kind == "slow" and slow >= 3:
                kind = "new"
            size = r.choice(SIZES)
            if limit and r.random() < 0.8:
                size = min(size, limit)
            if kind in ("new", "slow"):
                n = f.name(r)
                c = r.randbytes(size)
                if kind == "slow":
                    slow += 1
                f.put(n, c, 1 if kind == "new" else r.randrange(2, 6), 0 if kind == "new" else r.choice((0.01, 0.1, 0.3, 0.7)))
                done[n] = c
            elif kind == "several":
                for _ in range(r.randrange(2, 6)):
                    n = f.name(r)
                    done[n] = r.randbytes(r.choice(SIZES) if not limit else min(limit, r.choice(SIZES)))
                    f.put(n, done[n], 1, 0)
            elif kind in ("again", "append"):
                ok = [n for n in done if not limit or len(done[n]) <= limit]
                if not ok:
                    continue
                n = r.choice(ok)
                # the previous upload has ended
                if not wait_for(lambda: f.there(n, done[n]), 20):
                    break
                time.sleep(1.0)
                c = r.randbytes(max(1, size))
                if kind == "append" and limit and len(done[n]) + len(c) > limit:
                    continue
                f.put(n, c, r.choice((1, 1, 3)), 0.05, "wb" if kind == "again" else "ab")
                done[n] = c if kind == "again" else done[n] + c
            elif kind == "folder":
                n = "new%d%s" % (step, r.choice(("", "/in", "/in/side")))
                os.makedirs(f.local(n))
                for q in (n, os.path.dirname(n), os.path.dirname(os.path.dirname(n))):
                    if q:
                        b.own_one(f.local(q))
                at_once = r.random() < 0.3
                s.note("folder %s%s" % (n, ", and a file at once" if at_once else ""))
                m = n + "/x%d" % step
                if at_once:
                    f.early.add(m)
                else:
                    # the folder is known to the watcher once a probe arrives
                    for i in range(20):
                        q = "%s/probe%d" % (n, i)
                        f.put(q, b"probe", 1, 0)
                        f.maybe[q] = {b"probe"}
                        if wait_for(lambda: f.there(q, b"probe"), 1.2):
                            break
                    else:
                        s.fail("nothing from the new folder %s is uploaded: %s" % (n, b.log(y)[-500:]))
                        return
                c = r.randbytes(min(size, limit or size))
                f.put(m, c, r.choice((1, 1, 2)), 0.05)
                done[m] = c
                f.dirs.append(n)
            elif kind == "read" and before:
                n = r.choice(list(before))
                with open(f.local(n), "rb") as q:
                    q.read()
                os.utime(f.local(n))
                os.chmod(f.local(n), 0o644)
                s.note("read and touched " + n)
            elif kind == "fail":
                what = r.choice(("large", "unreadable", "in the way", "long"))
                n = f.name(r)
                if what == "large" and limit:
                    f.put(n, r.randbytes(limit + r.choice((1, 600, 5000))), 1, 0)
                    f.maybe[n] = None
                elif what == "unreadable" and b.drop:
                    os.close(os.open(f.local(n), os.O_WRONLY | os.O_CREAT, 0o000))
                elif what == "in the way":
                    b.mkdir("srv/" + n)
                    f.put(n, r.randbytes(700), 1, 0)
                    f.maybe[n] = None
                elif what == "long":
                    n = os.path.join(os.path.dirname(n), "l" * r.choice((200, 255)))
                    f.put(n, b"long", 1, 0)
                    f.maybe[n] = {b"long"}
                s.note("cannot be uploaded: %s %s" % (what, n[:80]))
            elif kind == "other":
                what = r.choice(("folder", "link out", "link in", "fifo", "socket"))
                n = f.local("other%d" % step)
                if what == "folder":
                    os.mkdir(n)
                elif what == "link out":
                    b.write("outside", b"outside")
                    os.symlink(b.path("outside"), n)
                elif what == "link in":
                    os.symlink("probe0", n)
                elif what == "fifo":
                    os.mkfifo(n)
                else:
                    q = socket.socket(socket.AF_UNIX)
                    q.bind(n)
                    q.close()
                s.note("made a %s" % what)
            elif kind == "remove" and done:
                n = r.choice(list(done))
                if len(done[n]) <= (limit or 1 << 30) and wait_for(lambda: f.there(n, done[n]), 20):
                    time.sleep(0.3)
                    os.unlink(f.local(n))
                    f.maybe[n] = {done.pop(n)}
                    s.note("removed " + n)
            s.res.count("step " + kind)
            time.sleep(r.choice((0, 0, 0.05, 0.4)))
        for n, c in done.items():
            if limit and len(c) > limit:
                f.maybe[n] = None
        wanted = {n: c for n, c in done.items() if n not in f.maybe or f.maybe[n] is not None}
        wanted = {n: c for n, c in wanted.items() if n not in f.maybe}
        wait_for(lambda: all(f.there(n, c) for n, c in wanted.items()), 20)
        time.sleep(0.6)
        for n, c in wanted.items():
            got = b.read("srv/" + n)
            s.check(got == c, lambda: "the file %r (%d bytes) is on the server %s: %s" % (n, len(c), "nowhere" if got is None else "with %d other bytes" % len(got), b.log(y)[-600:]),
                    key="new-folder-race" if n in f.early and got is None else None)
        # nothing else
        for d, ds, fs in os.walk(b.path("srv")):
            for x in fs:
                n = os.path.relpath(os.path.join(d, x), b.path("srv"))
                if n in wanted:
                    continue
                if n in f.maybe:
                    ok = f.maybe[n]
                    s.check(ok is None or b.read("srv/" + n) in ok or "probe" in n, "unexpected content of %r" % n)
                    continue
                s.fail("%r was uploaded, though it was never written" % n)
        s.check(y.poll() is None, lambda: "sync ended by itself with %s: %s" % (y.returncode, b.log(y)[-500:]))
        s.check(not panicked(b.log(y)), lambda: "sync panicked: %s" % b.log(y)[-800:])
        watch_server(s, b, p)
        s.res.count("files uploaded", len(wanted))
        s.res.case(("C28", s.index, on_create, bs, win, tuple(sorted((n, len(c)) for n, c in wanted.items()))), nontrivial=bool(wanted))


def parts():
    return {"C28": [scenarios("sync", history, 150, 1500, flavours=FLAVOURS, workers=16, budget=(200, 800))]}
