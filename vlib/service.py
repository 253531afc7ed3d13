"""C13, C15, C18, C29 on the real server: hostile datagrams, concurrency, limits, resources."""
import os
import random
import socket
import struct
import threading
import time

from . import net
from .e2e import ALL, scenarios, watch_server
from .net import ACK, DATA, ERROR, OACK, RRQ, WRQ, Bench


def flavour(s, *more):
    return s.r.choice(("tftp", "tftp", "tftp-stack", "tftp-alloc") + more if s.tier != "thorough" else ALL)


def hostile_packet(r, names):
    k = r.randrange(16)
    name = r.choice(names)
    if k == 0:
        return r.randbytes(r.choice((0, 1, 2, 3, 4, 5, 20, 100, 516, 1500, 9000)))
    if k == 1:
        return struct.pack(">H", r.choice((0, 7, 8, 255, 256, 65535))) + r.randbytes(r.randrange(40))
    if k == 2:
        return net.request(r.choice((RRQ, WRQ)), name, [("blksize", r.choice((b"", b"-1", b"0", b"7", b"99999999999999999999", b"\xff\xfe", b"1e3", b" 512")))])
    if k == 3:
        return net.request(r.choice((RRQ, WRQ)), name, [(r.choice(("windowsize", "timeout", "tsize", "enclevel", "spubk", "apubk", "sig", "x" * 50)), r.choice((b"", b"0", b"x" * 200, b"65536", b"18446744073709551616", "漢".encode() * 40)))])
    if k == 4:
        p = bytearray(net.request(r.choice((RRQ, WRQ)), name, [("blksize", 1024), ("tsize", 0)]))
        del p[r.randrange(2, len(p)):]
        return bytes(p)
    if k == 5:
        p = bytearray(net.request(r.choice((RRQ, WRQ)), name, [("blksize", 1024), ("tsize", 0)]))
        for _ in range(r.randrange(1, 4)):
            p[r.randrange(len(p))] = r.randrange(256)
        return bytes(p)
    if k == 6:
        return net.request(r.choice((RRQ, WRQ)), r.choice((b"\xff\xfe\xfd", b"", b"a" * 149, b"a" * 150, b"a" * 151, b"a" * 400, ("é" * 80).encode(), ("漢" * 60).encode(), ("a" + "😀" * 60).encode(), b"/" * 300, b"../" * 60 + b"x")))
    if k == 7:
        return net.request(r.choice((RRQ, WRQ)), name, mode=r.choice((b"", b"netascii", b"mail", b"OCTET", b"\xff", b"octet\xc3", b"x" * 300)))
    if k == 8:
        return net.data(r.choice((0, 1, 2, 65535)), r.randbytes(r.choice((0, 1, 40, 44, 512, 1425))))
    if k == 9:
        return net.ack(r.choice((0, 1, 2, 65535)))
    if k == 10:
        return net.error(r.randrange(12), r.choice((b"", b"x", b"\xff", b"y" * 600)))[:r.choice((3, 4, 5, 600))]
    if k == 11:
        return struct.pack(">H", OACK) + r.choice((b"", b"blksize\0512\0", b"blksize\0", b"\0\0\0", b"a\0b"))
    if k == 12:
        return r.randbytes(r.choice((59, 60, 72, 73, 88, 556, 1428, 1429, 1430, 1500)))
    if k == 13:
        return net.request(r.choice((RRQ, WRQ)), name, [(r.choice(("blksize", "windowsize", "timeout", "tsize")), r.randrange(70000)) for _ in range(r.randrange(1, 20))])
    if k == 14:
        return bytes(r.choice((65507, 30000)))
    return net.request(r.choice((RRQ, WRQ)), "nothing/" + str(r.randrange(9)))[:-1]


# --- C13 ------------------------------------------------------------------------------------------------------------
def hostile(s):
    r = s.r
    binary = flavour(s, "tftp-stack-encryption")
    with Bench(s.bins) as b:
        b.mkdir("srv")
        files = {"f%d" % i: r.randbytes(n) for i, n in enumerate((0, 100, 512, 5000, 40000))}
        for n, c in files.items():
            b.write("srv/" + n, c)
        args = ["--request-timeout", "2000"]
        if r.random() < 0.4:
            args += ["--require-server-port-change=true"]
        if r.random() < 0.3:
            args += ["--directory-list", "dir"]
        if r.random() < 0.2:
            args += ["--prefer-seek"]
        p = b.server(b.path("srv"), *args, binary=binary)
        # names which open nothing: strangers shall not use up the sessions
        names = ["nothing", "no/thing", "f9", "..", ""]
        stop = threading.Event()
        sent, replies, toomany = [0], [0], []

        def attacker(seed):
            q = random.Random(seed)
            sk = b.sock("127.0.0.%d" % q.choice((1, 2, 9)))
            while not stop.is_set():
                packet = hostile_packet(q, names)
                # a fresh source for every packet which may be a request: the replies can be counted
                fresh = b_sock(q)
                try:
                    fresh.sendto(packet, p.addr)
                except OSError:
                    fresh.close()
                    continue
                sent[0] += 1
                got = net.drain(fresh, 0.01)
                replies[0] += len(got)
                errors = [g for g in got if net.op(g) == ERROR]
                if len(errors) > 1:
                    toomany.append((packet[:80], errors))
                fresh.close()
                if q.random() < 0.2:
                    for _ in range(20):
                        try:
                            sk.sendto(hostile_packet(q, names), p.addr)
                            sent[0] += 1
                        except OSError:
                            pass
                    net.drain(sk, 0.001)

        def b_sock(q):
            x = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            x.bind(("127.0.0.%d" % q.choice((1, 1, 2, 9)), 0))
            return x

        ts = [threading.Thread(target=attacker, args=(r.getrandbits(60),)) for _ in range(2)]
        for t in ts:
            t.start()
        try:
            for n in range(10):
                name = r.choice(list(files))
                up = r.random() < 0.5
                began = time.time()
                if r.random() < 0.35:
                    cl = r.choice(ALL)
                    extra = ["--allow-server-port-change"] if "--require-server-port-change=true" in args else []
                    if up:
                        b.write("src", files[name])
                        rc, out, _ = b.client("send", *extra, "-r", "u%d" % n, "%s:%d" % p.addr, b.path("src"), binary=cl)
                        ok, got, what = rc == 0, b.read("srv/u%d" % n), out[-300:]
                    else:
                        b.mkdir("c")
                        rc, out, _ = b.client("receive", *extra, "--local-path", b.path("c/%d" % n), "%s:%d" % p.addr, name, binary=cl)
                        ok, got, what = rc == 0, b.read("c/%d" % n), out[-300:]
                else:
                    sk = b.sock()
                    o = [("blksize", r.choice((512, 1024, 1400)))] if r.random() < 0.5 else []
                    if up:
                        x = net.upload(sk, p.addr, "u%d" % n, files[name], o, timeout=2, tries=6)
                        ok, got, what = x.ok, b.read("srv/u%d" % n), x
                    else:
                        # a stranger joins the session
                        x = net.download(sk, p.addr, name, o, timeout=2, tries=6)
                        ok, got, what = x.ok, x.content, x
                    b.release(sk)
                took = time.time() - began
                s.note("%s %s: %s in %.1f s" % ("upload" if up else "download", name, what, took))
                s.check(ok and got == files[name], "%s of %d bytes beside hostile datagrams (server %s %s): %s, %s bytes" % ("upload" if up else "download", len(files[name]), binary, args, what, got and len(got)))
                s.check(took < 20, "a valid transfer beside hostile datagrams took %.1f s" % took)
                s.res.count("valid_transfers")
                watch_server(s, b, p)
                if s.failed:
                    break
            # the ports of a running transfer
            if not s.failed:
                session_ports(s, b, p, files, r)
        finally:
            stop.set()
            for t in ts:
                t.join()
        s.check(not toomany, "more than one error packet in reply to one datagram: %r" % toomany[:2])
        s.res.count("hostile_datagrams", sent[0])
        s.res.count("replies_to_them", replies[0])
        s.res.case("%s %s %d" % (binary, args, s.index))
        watch_server(s, b, p)


def session_ports(s, b, p, files, r):
    """datagrams from strangers and from the client itself to the port of a running download"""
    sk = b.sock()
    name, want = "f4", files["f4"]
    q, a = net.start(sk, p.addr, net.request(RRQ, name))
    if not s.check(q is not None and net.op(q) == DATA, "no data for a valid request"):
        return
    out, n = q[4:], 1
    stranger = b.sock("127.0.0.3")
    while True:
        for _ in range(3):
            stranger.sendto(hostile_packet(r, ["nothing"]), a)
            # nonsense from the client's own address as well, but nothing which means something
            junk = r.choice((r.randbytes(1), struct.pack(">H", 9) + r.randbytes(20), b"", net.data(n + 3, b"zzz"), struct.pack(">H", OACK) + b"\0"))
            if r.random() < 0.3:
                sk.sendto(junk, a)
        stranger.sendto(net.error(0), a)
        stranger.sendto(net.ack(n + 1), a)
        sk.sendto(net.ack(n), a)
        if len(q) < 516:
            break
        for _ in range(40):
            q, x = net.recv(sk, 0.5)
            if q is None:
                sk.sendto(net.ack(n), a)
                continue
            if x == a and net.op(q) == DATA and net.num(q) == (n + 1) & 0xFFFF:
                break
            if x == a and net.op(q) == ERROR:
                # ending a session which got nonsense from its own client is allowed
                s.res.count("sessions_ended_for_nonsense")
                return
        else:
            return s.fail("a download did not go on after strangers sent to its port (block %d)" % (n + 1))
        n += 1
        out += q[4:]
    s.check(out == want, "a download disturbed by strangers delivered %d wrong bytes" % len(out))
    s.res.count("disturbed_sessions")


# --- C15 ------------------------------------------------------------------------------------------------------------
def crowd(s):
    r = s.r
    binary = flavour(s)
    single = binary != "tftp"
    with Bench(s.bins) as b:
        b.mkdir("srv")
        b.mkdir("c")
        args = ["--request-timeout", "3000"]
        change = r.random() < 0.4
        if change:
            args += ["--require-server-port-change=true"]
        p = b.server(b.path("srv"), *args, binary=binary)
        k = r.choice((2, 5, 12, 24))
        contents = [(b"<%d>" % i) * 10 + r.randbytes(r.choice((0, 1, 482, 2000, 20000, 60000))) for i in range(k)]
        gate = threading.Barrier(k)
        results = [None] * k
        seeds = [r.getrandbits(60) for _ in range(k)]
        # in fixed-capacity builds only a few sessions may use a large window at once
        kinds = [random.Random(x).choice(("down", "up", "down", "up", "cli-down", "cli-up", "abandon", "error", "garbage")) for x in seeds]

        def client(i):
            q = random.Random(seeds[i])
            kind = kinds[i]
            o = []
            if q.random() < 0.6:
                o.append(("blksize", q.choice((512, 600, 1024, 1400))))
            if q.random() < 0.3 and not (single and "stack" in binary):
                o.append(("windowsize", q.choice((2, 4, 8))))
            name = "f%d" % i
            if "down" in kind or kind in ("abandon", "error", "garbage"):
                b.write("srv/" + name, contents[i])
            if kind.startswith("cli") and kind.endswith("up"):
                b.write("c/s%d" % i, contents[i])
            sk = b.sock("127.0.0.%d" % (1 if change else q.choice((1, 1, 2))), 3)
            began = time.time()
            gate.wait()
            time.sleep(q.random() * q.choice((0, 0.001, 0.05, 0.3)))
            target = "%s:%d" % p.addr
            win = ["--window-size", "1"] if "stack" in binary else []
            if kind == "down":
                x = net.download(sk, p.addr, name, o, timeout=3)
                results[i] = (x.ok, x.content, x)
            elif kind == "up":
                x = net.upload(sk, p.addr, name, contents[i], o, timeout=3)
                results[i] = (x.ok, b.read("srv/" + name), x)
            elif kind == "cli-down":
                rc, out, _ = b.client("receive", *win, *(["--allow-server-port-change"] if change else []), "--local-path", b.path("c/d%d" % i), target, name, binary=q.choice(ALL))
                results[i] = (rc == 0, b.read("c/d%d" % i), out[-300:])
            elif kind == "cli-up":
                rc, out, _ = b.client("send", *win, *(["--allow-server-port-change"] if change else []), "-r", name, target, b.path("c/s%d" % i), binary=q.choice(ALL))
                results[i] = (rc == 0, b.read("srv/" + name), out[-300:])
            else:
                y, a = net.start(sk, p.addr, net.request(RRQ, name, o), 3)
                if y is not None and kind == "error":
                    sk.sendto(net.error(0, b"bye"), a)
                elif y is not None and kind == "garbage":
                    for n in range(200):
                        sk.sendto(hostile_packet(q, ["nothing"]), a)
                    # aim at everybody's ports
                    st = b.sock("127.0.0.5")
                    for n in range(300):
                        st.sendto(q.choice((net.ack(q.randrange(60)), net.data(q.randrange(60), b"stranger" * 60), net.error(q.randrange(8)))), a)
                results[i] = (True, contents[i], "left")
            results[i] += (time.time() - began,)

        ts = [threading.Thread(target=client, args=(i,)) for i in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in range(k):
            if results[i] is None:
                raise RuntimeError("client %d failed in the harness" % i)
            ok, got, what, took = results[i]
            s.note("%s: %s %.1f s" % (kinds[i], what, took))
            s.check(ok and got == contents[i], "%s of %d bytes with %d other clients (%s %s): %s; %s bytes%s" % (
                kinds[i], len(contents[i]), k - 1, binary, args, what, got and len(got), ", some of another session" if got and any(b"<%d><%d>" % (j, j) in got for j in range(k) if j != i) else ""))
            s.check(took < 45, "%s took %.1f s" % (kinds[i], took))
        s.res.count("sessions", k)
        s.res.count("max_sessions_at_once", k)
        s.res.case("%s %d %s" % (binary, k, "".join(x[0] + x[-1] for x in kinds)))
        watch_server(s, b, p)


# --- C18 ------------------------------------------------------------------------------------------------------------
def limits(s):
    r = s.r
    binary = flavour(s)
    with Bench({binary: s.bins[binary]}) as b:
        b.mkdir("srv")
        kind = ("size", "depth", "connections")[s.index % 3]
        if kind == "size":
            limit = r.choice((0, 1, 511, 512, 513, 1000, 5000, 20000))
            p = b.server(b.path("srv"), "--request-timeout", "2000", "--max-file-size", limit, binary=binary)
            for n in range(14):
                size = max(0, limit + r.choice((-513, -512, -1, 0, 0, 1, 2, 511, 512, 513, 3000)))
                bs = r.choice((512, 512, 600, 1024, 1400))
                opts = [("blksize", bs)] if bs != 512 else []
                declared = r.choice((None, None, size, size, 0, 1, limit, limit + 1, limit + 5000))
                if declared is not None:
                    opts.append(("tsize", declared))
                if r.random() < 0.3 and "stack" not in binary:
                    opts.append(("windowsize", r.choice((2, 4))))
                sk = b.sock()
                o = net.upload(sk, p.addr, "f%d" % n, r.randbytes(size), opts, timeout=2)
                time.sleep(0.02)
                got = b.read("srv/f%d" % n)
                what = "upload of %d bytes (declared %s) to a server (%s) with the limit %d: %r, stored %s" % (size, declared, binary, limit, o, got is not None and len(got))
                s.note(what)
                s.check(got is None or len(got) <= limit + bs, what + ": too much is stored")
                if declared is not None and declared > limit:
                    s.check(o.kind == "error" and not got, what + ": the declared size was not refused up front")
                elif size > limit:
                    s.check(not o.ok, what + ": acknowledged as complete")
                else:
                    s.check(o.ok and got is not None and len(got) == size, what + ": within the limit, but affected")
                b.release(sk)
                s.res.count("uploads")
                s.res.case("size %s %d %d %s %d" % (binary, limit, size, declared, bs))
                if s.failed:
                    break
        elif kind == "depth":
            depth = r.choice((0, 1, 2, 5, 10))
            p = b.server(b.path("srv"), "--request-timeout", "2000", "-a", *(["--max-directory-depth", depth] if depth != 10 else []), binary=binary)
            for n in range(20):
                d = max(0, depth + r.choice((-1, 0, 0, 1, 1, 2, 20)))
                parts = ["%s%d" % (r.choice("ab"), i) for i in range(d)]
                noisy = []
                for x in parts:
                    noisy += [x] + ([r.choice((".", "..", ""))] if r.random() < 0.2 else [])
                name = "/".join(noisy + ["f%d" % n])
                sk = b.sock()
                o = net.upload(sk, p.addr, name, b"x", timeout=2, tries=2)
                made = max([len(os.path.relpath(x, b.path("srv")).split("/")) for x, _, _ in os.walk(b.path("srv")) if x != b.path("srv")] or [0])
                s.note("write %r -> %r, deepest %d" % (name, o, made))
                s.check(made <= depth, "the upload of %r created directories %d deep, the limit is %d" % (name, made, depth))
                if d > depth:
                    s.check(not o.ok, "the upload of %r was accepted, the depth limit is %d" % (name, depth))
                elif noisy == parts:
                    s.check(o.ok, "the upload of %r within the depth limit %d gave %r" % (name, depth, o))
                b.release(sk)
                s.res.count("paths")
                s.res.case("depth %s %d %d %s" % (binary, depth, d, name))
                if s.failed:
                    break
        else:
            limit = r.choice((1, 2, 3, 5))
            p = b.server(b.path("srv"), "--request-timeout", "3000", "--max-connections", limit, binary=binary)
            b.write("srv/f", bytes(3000))
            for rnd in range(3):
                k = limit + r.choice((1, 2, 5))
                socks = [b.sock() for _ in range(k)]
                kinds = [r.choice((RRQ, WRQ)) for _ in range(k)]
                for i, sk in enumerate(socks):
                    sk.sendto(net.request(kinds[i], "f" if kinds[i] == RRQ else "n%d-%d" % (rnd, i)), p.addr)
                    time.sleep(0.03)
                answered = []
                deadline = time.time() + 1.2
                for i, sk in enumerate(socks):
                    q, a = net.recv(sk, max(0.02, deadline - time.time()))
                    if q is not None and net.op(q) in (DATA, ACK, OACK):
                        answered.append((i, a))
                s.note("%d requests, limit %d: %d sessions" % (k, limit, len(answered)))
                s.check(len(answered) <= limit, "%d sessions run at once, the limit is %d" % (len(answered), limit))
                s.check(len(answered) == limit, "only %d of %d possible sessions were accepted" % (len(answered), limit))
                # end them: half by an error, the others by silence
                for j, (i, a) in enumerate(answered):
                    if j % 2 == 0:
                        socks[i].sendto(net.error(0, b"bye"), a)
                time.sleep(6.5 if len(answered) > 1 or rnd == 0 else 4)
                for sk in socks:
                    b.release(sk)
                s.res.count("limit_reached")
                s.res.count("sessions_at_the_limit", len(answered))
                s.res.case("connections %s %d %d %s" % (binary, limit, k, kinds))
                if s.failed:
                    break
        watch_server(s, b, p)


# --- C29 ------------------------------------------------------------------------------------------------------------
def usage(pid):
    fds = []
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            fds.append(os.readlink("/proc/%d/fd/%s" % (pid, f)))
        except OSError:
            pass
    with open("/proc/%d/status" % pid) as f:
        st = dict(l.split(":", 1) for l in f.read().splitlines() if ":" in l)
    return len(fds), int(st["Threads"]), int(st["VmRSS"].split()[0]), fds


def session(s, b, p, r, n, files):
    """one session of some kind; nothing is awaited after it"""
    kind = r.choice(("down", "up", "missing", "exists", "abandon-read", "abandon-write", "abandon-write", "error-read", "error-write", "too-big", "directory", "bad", "repeat", "half-up", "window"))
    sk = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    sk.bind(("127.0.0.1", 0))
    o = []
    if r.random() < 0.5:
        o.append(("blksize", r.choice((512, 600, 1400))))
    if r.random() < 0.3:
        o.append(("windowsize", r.choice((1, 2, 8))))
    if kind == "down":
        name = r.choice(list(files))
        x = net.download(sk, p.addr, name, o, timeout=1, tries=2)
    elif kind == "up":
        net.upload(sk, p.addr, "up%d" % n, r.randbytes(r.choice((0, 100, 3000))), o, timeout=1, tries=2)
    elif kind == "missing":
        net.start(sk, p.addr, net.request(RRQ, "nothing", o), 1, 2)
    elif kind == "exists":
        net.start(sk, p.addr, net.request(WRQ, "f1", o), 1, 2)
    elif kind in ("abandon-read", "window"):
        net.start(sk, p.addr, net.request(RRQ, "f3", o if kind != "window" else [("windowsize", 16), ("blksize", 1400)]), 0.5, 1)
    elif kind == "abandon-write":
        net.start(sk, p.addr, net.request(WRQ, "ab%d" % n, o), 0.5, 1)
    elif kind in ("error-read", "error-write"):
        q, a = net.start(sk, p.addr, net.request(RRQ if kind == "error-read" else WRQ, "f3" if kind == "error-read" else "er%d" % n, o), 0.5, 1)
        if q is not None:
            sk.sendto(net.error(r.randrange(8), b"bye"), a)
    elif kind == "too-big":
        net.start(sk, p.addr, net.request(WRQ, "big%d" % n, [("tsize", 10 ** 12)]), 1, 2)
    elif kind == "directory":
        net.start(sk, p.addr, net.request(RRQ, r.choice(("sub", ".", "")), o), 1, 2)
    elif kind == "bad":
        sk.sendto(hostile_packet(r, ["nothing"]), p.addr)
        net.recv(sk, 0.05)
    elif kind == "repeat":
        for _ in range(3):
            sk.sendto(net.request(RRQ, "f3", o), p.addr)
        net.recv(sk, 0.5)
    elif kind == "half-up":
        net.upload(sk, p.addr, "half%d" % n, bytes(5000), o, timeout=1, tries=2, stop_after=3)
    sk.close()
    return kind


def history(s):
    r = s.r
    binary = flavour(s, "tftp-stack-encryption")
    # as the user of this check: the kernel shows the open files of one's own processes only
    with Bench({binary: s.bins[binary]}, drop=False) as b:
        b.mkdir("srv/sub")
        files = {"f%d" % i: r.randbytes(n) for i, n in enumerate((0, 100, 5000, 60000))}
        for n, c in files.items():
            b.write("srv/" + n, c)
        limit = r.choice((3, 6))
        args = ["--request-timeout", "1000", "--max-connections", limit]
        if r.random() < 0.4:
            args += ["--require-server-port-change=true"]
        if r.random() < 0.4:
            args += ["--prefer-seek"]
        if r.random() < 0.3:
            args += ["--directory-list", "dir"]
        p = b.server(b.path("srv"), *args, binary=binary)
        # one of each kind of transfer, so that what is made once exists
        for name in ("f2", "f3"):
            net.download(b.sock(), p.addr, name)
        net.upload(b.sock(), p.addr, "warm", bytes(2000))
        base = settled(p, None)
        s.note("at rest: %d files, %d threads, %d kB" % base[:3])
        rounds = 3 if s.tier != "thorough" else 12
        per = 40 if s.tier != "thorough" else 150
        n = 0
        rss = []
        for rnd in range(rounds):
            kinds = {}
            for _ in range(per):
                k = session(s, b, p, r, n, files)
                kinds[k] = kinds.get(k, 0) + 1
                n += 1
                if p.poll() is not None:
                    break
            now = settled(p, base)
            if now is None:
                break
            s.note("after %r: %d files, %d threads, %d kB" % ((kinds,) + now[:3]))
            s.check(now[0] <= base[0], "after %d sessions %r (%s %s) the server holds %d open files, at rest %d: %r" % (per, kinds, binary, args, now[0], base[0], now[3]))
            s.check(now[1] <= base[1], "after %d sessions %r the server has %d threads, at rest %d" % (per, kinds, now[1], base[1]))
            rss.append(now[2])
            # all slots are free again
            socks = [b.sock() for _ in range(limit)]
            ok = 0
            for i, sk in enumerate(socks):
                q, a = net.start(sk, p.addr, net.request(WRQ, "probe%d-%d" % (rnd, i)), 1.0, 3)
                ok += q is not None and net.op(q) == ACK
                socks[i] = (sk, a)
            s.check(ok == limit, "after %d sessions %r (%s %s) only %d of %d new sessions were accepted" % (per, kinds, binary, args, ok, limit))
            for sk, a in socks:
                if a:
                    sk.sendto(net.error(0, b"bye"), a)
                b.release(sk)
            s.res.count("sessions", per)
            s.res.count("slots_probed", limit)
            for k, v in kinds.items():
                s.res.count("kind_" + k, v)
            s.res.case("%s %s %d %s" % (binary, args, rnd, sorted(kinds.items())))
            if s.failed:
                break
        if len(rss) >= 2:
            s.res.count("max_rss_growth_kb", max(0, rss[-1] - rss[0]))
            s.check(rss[-1] - rss[0] < 12000, "the memory of the server grew from %d kB to %d kB over %d sessions" % (rss[0], rss[-1], per * (len(rss) - 1)))
        watch_server(s, b, p)


def settled(p, base):
    """the use of resources once sessions have ended: waits for it to come down"""
    last, end = None, time.time() + (14 if base else 5)
    while time.time() < end:
        if p.poll() is not None:
            return last
        last = usage(p.pid)
        if base and last[0] <= base[0] and last[1] <= base[1]:
            return last
        time.sleep(0.25)
    return last


def parts():
    return {
        "C13": scenarios("hostile-datagrams-to-the-real-server", hostile, 40, 300, workers=4),
        "C15": scenarios("crowd-of-clients-on-the-real-server", crowd, 100, 800, workers=4),
        "C18": scenarios("limits-of-the-real-server", limits, 80, 600, workers=12),
        "C29": scenarios("resources-of-the-real-server", history, 16, 100, workers=16),
    }
