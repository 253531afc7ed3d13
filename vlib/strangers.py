"""C14 and C15 on real programs: datagrams of strangers at the sockets of sessions and clients, with an injected delay where the socket of
a session exists but is not connected yet."""
import os
import random
import socket
import struct
import subprocess
import threading
import time

from . import build, net
from .e2e import ALL, scenarios, watch_server
from .net import ACK, DATA, ERROR, OACK, RRQ, WRQ, Bench

_shim = None
_lock = threading.Lock()


def shim():
    """a library which delays connect(), or None where it cannot be made"""
    global _shim
    with _lock:
        if _shim is None:
            out = os.path.join(build.BUILD, "delay-%d.so" % os.getpid())
            os.makedirs(build.BUILD, exist_ok=True)
            src = os.path.join(build.VERIF, "vlib", "native", "delay.c")
            _shim = ""
            for cc in ("cc", "gcc", "clang"):
                try:
                    if subprocess.run([cc, "-O1", "-shared", "-fPIC", "-o", out, src, "-ldl"], capture_output=True, timeout=60).returncode == 0:
                        with open(out, "rb") as f:
                            _shim = f.read()
                        break
                except (OSError, subprocess.SubprocessError):
                    pass
            try:
                os.remove(out)
            except OSError:
                pass
        return _shim


def sock_at(b, ip, port=0):
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        s.bind((ip, port))
    except OSError:
        s.bind((ip, 0))
    b.socks.append(s)
    return s


def nonsense(r, n, size):
    """what a stranger sends to take part in a session: n is about the current block"""
    n = max(0, n + r.choice((-1, 0, 0, 1, 1, 1, 2, 3)))
    return r.choice((
        lambda: net.data(n, b"stranger" * (size // 8) if r.random() < 0.5 else b"stranger"),
        lambda: net.data(n, b"stranger" * 200)[:4 + size],
        lambda: net.data(n, b""),
        lambda: net.ack(n),
        lambda: net.ack(r.randrange(65536)),
        lambda: net.error(r.randrange(9), b"stranger"),
        lambda: struct.pack(">H", OACK) + b"blksize\x00512\x00",
        lambda: struct.pack(">H", OACK),
        lambda: r.randbytes(r.randrange(600)),
    ))()


class Strangers(threading.Thread):
    """keeps sending to the given ports"""

    def __init__(self, b, seed, socks, pause=0.0004):
        super().__init__(daemon=True)
        self.r, self.socks, self.pause = random.Random(seed), socks, pause
        self.targets, self.at, self.size = [], 0, 512
        self.sent = 0
        self.done = threading.Event()
        self.got = []
        for x in socks:
            x.setblocking(False)
        self.start()

    def run(self):
        while not self.done.wait(self.pause):
            if not self.targets:
                continue
            x = self.r.choice(self.socks)
            try:
                x.sendto(nonsense(self.r, self.at, self.size), self.r.choice(self.targets))
                self.sent += 1
            except OSError:
                pass
            if self.sent % 50 == 0:
                self.collect()

    def collect(self):
        for x in self.socks:
            for _ in range(50):
                try:
                    self.got.append(x.recvfrom(70000)[0])
                except OSError:
                    break

    def close(self):
        self.done.set()
        self.join()
        time.sleep(0.02)
        self.collect()


# --- C15: at the sockets of a server --------------------------------------------------------------------------------
def at_server(s):
    r = s.r
    binary = r.choice(ALL)
    with Bench(s.bins) as b:
        b.mkdir("srv")
        b.mkdir("c")
        args = ["--request-timeout", "3000"]
        change = r.random() < 0.3
        if change:
            args += ["--require-server-port-change=true"]
        delay = r.choice((0, 1000, 5000, 20000))
        env = {}
        if delay and shim():
            lib = b.write("delay.so", shim())
            os.chmod(lib, 0o755)
            env = {"LD_PRELOAD": lib, "CONNECT_DELAY_US": str(delay)}
        p = b.server(b.path("srv"), *args, binary=binary, env=env)
        for n in range(4):
            up = r.random() < 0.6
            content = r.randbytes(r.choice((0, 100, 512, 1500, 5000, 20000)))
            cli = r.random() < 0.25
            sk = b.sock("127.0.0.1", 3)
            port = sk.getsockname()[1]
            # other ports of the same host, and the same port of other hosts
            st = Strangers(b, r.getrandbits(60), [sock_at(b, "127.0.0.1") for _ in range(6)] + [sock_at(b, ip, port) for ip in ("127.0.0.2", "127.0.0.3", "127.0.0.4")])
            st.targets = [p.addr]
            began = time.time()
            name = "f%d" % n
            if not up:
                b.write("srv/" + name, content)
            try:
                time.sleep(0.02)
                if cli:
                    cl = r.choice(ALL)
                    more = ["--allow-server-port-change"] if change else []
                    if up:
                        b.write("c/src", content)
                        rc, out, _ = b.client("send", *more, "-r", name, "%s:%d" % p.addr, b.path("c/src"), binary=cl)
                        ok, got, what = rc == 0, b.read("srv/" + name), out[-300:]
                    else:
                        rc, out, _ = b.client("receive", *more, "--local-path", b.path("c/" + name), "%s:%d" % p.addr, name, binary=cl)
                        ok, got, what = rc == 0, b.read("c/" + name), out[-300:]
                else:
                    o = [("blksize", r.choice((512, 1024, 1400)))] if r.random() < 0.5 else []
                    x = step_by_step(b, sk, st, p.addr, WRQ if up else RRQ, name, content, o)
                    ok, got, what = x.ok, b.read("srv/" + name) if up else x.content, x
            finally:
                st.close()
            took = time.time() - began
            kind = "%s of %d bytes%s" % ("upload" if up else "download", len(content), " by a real client" if cli else "")
            s.note("%s beside %d datagrams of strangers, connect delayed by %d us: %s" % (kind, st.sent, delay if env else 0, what))
            s.check(ok and got == content, "%s while strangers sent to the server (%s %s, connect delayed by %d us): %s; %s bytes%s" % (
                kind, binary, args, delay, what, got and len(got), ", some of a stranger" if got and b"stranger" in got else ""))
            s.check(took < 30, "%s while strangers sent to the server took %.1f s" % (kind, took))
            bad = [g[:60] for g in st.got if net.op(g) in (DATA, ACK, OACK)]
            s.check(not bad, "a stranger got packets of a session: %r" % bad[:3])
            s.res.count("sessions_beside_strangers")
            s.res.count("datagrams_of_strangers", st.sent)
            if env:
                s.res.count("sessions_with_delayed_connect")
            s.res.case("%s %s %s %s %d %d %d" % (binary, change, up, cli, delay, len(content), n))
            for x in list(st.socks) + [sk]:
                b.release(x)
            watch_server(s, b, p)
            if s.failed:
                break


def step_by_step(b, sk, st, addr, op, name, content, options):
    """a plain transfer which tells the strangers where it is"""
    req = net.request(op, name, options)
    first = None
    for _ in range(5):
        sk.sendto(req, addr)
        p, a = net.recv(sk, 2)
        if p is not None:
            first = (p, a)
            break
    if first is None:
        return net.Outcome("silent")
    p, a = first
    st.targets = [a, addr]
    if net.op(p) == ERROR:
        return net.Outcome("error", reply=p)
    bs = 512
    if net.op(p) == OACK:
        bs = int(net.oack_options(p).get("blksize", 512))
        st.size = bs
        if op == RRQ:
            sk.sendto(net.ack(0), a)
    if op == WRQ:
        n = 1
        while True:
            st.at = n
            chunk = content[(n - 1) * bs:n * bs]
            for _ in range(8):
                sk.sendto(net.data(n, chunk), a)
                end, done = time.time() + 1.5, False
                while time.time() < end:
                    p, x = net.recv(sk, end - time.time())
                    if p is None:
                        break
                    if net.op(p) == ERROR:
                        return net.Outcome("error", reply=p)
                    if net.op(p) == ACK and net.num(p) == n & 0xFFFF:
                        done = True
                        break
                if done:
                    break
            else:
                return net.Outcome("silent")
            if len(chunk) < bs:
                return net.Outcome("ok")
            n += 1
    out, n, idle = b"", 1, 0
    if net.op(p) == OACK:
        p = None
    while True:
        st.at = n
        if p is not None and net.op(p) == ERROR:
            return net.Outcome("error", out, p)
        if p is not None and net.op(p) == DATA and net.num(p) == n & 0xFFFF:
            out += p[4:]
            sk.sendto(net.ack(n), a)
            n += 1
            idle = 0
            if len(p) - 4 < bs:
                return net.Outcome("ok", out)
        elif p is None:
            idle += 1
            if idle > 12:
                return net.Outcome("silent", out)
            sk.sendto(net.ack(n - 1), a)
        p, _ = net.recv(sk, 0.7)


# --- C14: at the sockets of a client --------------------------------------------------------------------------------
class Server(threading.Thread):
    """a plain server for one client; plan says what it does beside serving properly"""

    def __init__(self, b, r, content, plan, strangers, rounds):
        super().__init__(daemon=True)
        self.b, self.r, self.content, self.plan, self.st, self.rounds = b, r, content, plan, strangers, rounds
        self.sk = b.sock("127.0.0.1", 10)
        self.addr = self.sk.getsockname()
        self.reply = b.sock("127.0.0.1", 10) if plan == "moves" else self.sk
        self.stored = b""
        self.complete = False
        self.acted = False
        self.client = None
        self.requests = 0
        self.seen = []
        self.start()

    def inject(self, n):
        """strangers speak up before the server does, every time"""
        self.st.at = n
        for _ in range(self.rounds):
            x = self.r.choice(self.st.socks)
            try:
                x.sendto(nonsense(self.r, n, 512), self.client)
                self.st.sent += 1
            except OSError:
                pass

    def act(self, n):
        """at the chosen point the server itself misbehaves -> whether to go on"""
        if self.acted or self.plan in ("proper", "moves") or n < self.when:
            return True
        self.acted = True
        send = lambda p: self.reply.sendto(p, self.client)
        if self.plan == "error":
            send(net.error(self.r.choice((1, 2, 3, 6, 7)), b"told by the server"))
            return False
        if self.plan == "silent":
            return False
        for _ in range(self.r.choice((1, 5, 40))):
            send(self.r.choice((lambda: self.r.randbytes(self.r.randrange(1600)), lambda: net.error(1, b"\xff\xff")[:self.r.randrange(2, 8)],
                                lambda: net.data(self.r.randrange(65536), self.r.randbytes(self.r.randrange(1600))), lambda: net.ack(self.r.randrange(65536)),
                                lambda: struct.pack(">H", OACK) + self.r.randbytes(30), lambda: b"", lambda: net.request(RRQ, "x"),
                                lambda: bytes(9000)))())
        return self.plan == "garbage-then-on"

    def run(self):
        self.when = self.r.choice((0, 1, 2, 3))
        try:
            self.serve()
        except OSError as x:
            self.seen.append(repr(x))

    def serve(self):
        p, self.client = self.sk.recvfrom(70000)
        self.requests = 1
        self.st.targets = [self.client]
        self.st.collect()
        self.inject(0)
        if not self.act(0):
            return
        if net.op(p) == RRQ:
            n = 1
            while True:
                chunk = self.content[(n - 1) * 512:n * 512]
                ok = False
                for _ in range(20):
                    self.inject(n)
                    self.reply.sendto(net.data(n, chunk), self.client)
                    q = self.wait(lambda q: net.op(q) == ACK and net.num(q) == n & 0xFFFF)
                    if q == "error":
                        return
                    if q:
                        ok = True
                        break
                if not ok:
                    return
                if len(chunk) < 512:
                    self.complete = True
                    return
                if not self.act(n):
                    return
                n += 1
        n = 0
        while True:
            ok = False
            for _ in range(20):
                self.inject(n)
                self.reply.sendto(net.ack(n), self.client)
                if self.complete:
                    # the last acknowledgement once more, in case it got lost among the others
                    q = self.wait(lambda q: net.op(q) == DATA, 0.3)
                    if q is None or q == "error":
                        return
                    continue
                q = self.wait(lambda q: net.op(q) == DATA and net.num(q) == (n + 1) & 0xFFFF)
                if q == "error":
                    return
                if q:
                    ok = True
                    break
            if self.complete or not ok:
                return
            self.stored += q[4:]
            n += 1
            if len(q) - 4 < 512:
                self.complete = True
            elif not self.act(n):
                return

    def wait(self, good, timeout=0.5):
        end = time.time() + timeout
        while time.time() < end:
            self.reply.settimeout(max(0.001, end - time.time()))
            try:
                q, a = self.reply.recvfrom(70000)
            except OSError:
                return None
            if a != self.client:
                self.seen.append("a packet from %r" % (a,))
                continue
            if net.op(q) == ERROR:
                self.seen.append(net.err_text(q))
                return "error"
            if good(q):
                return q
        return None


PLANS = ("proper", "proper", "proper", "moves", "moves", "error", "silent", "garbage", "garbage-then-on")


def at_client(s):
    r = s.r
    cl = r.choice(ALL)
    with Bench(s.bins) as b:
        b.mkdir("c")
        for n in range(3):
            plan = r.choice(PLANS)
            up = r.random() < 0.5
            change = plan == "moves" and r.random() < 0.6 or r.random() < 0.2
            content = r.randbytes(r.choice((0, 100, 512, 1500, 5000)))
            # before the first reply any port of the server's host may speak for the server if that was allowed, and ends the client if not
            st = Strangers(b, r.getrandbits(60), [sock_at(b, ip) for ip in ("127.0.0.2", "127.0.0.3", "127.0.0.4")], 0.002)
            srv = Server(b, r, content, plan, st, r.choice((1, 3, 10)))
            if r.random() < 0.5:
                # the port of the server on other hosts
                st.socks += [sock_at(b, ip, srv.addr[1]) for ip in ("127.0.0.5", "127.0.0.6")]
                for x in st.socks:
                    x.setblocking(False)
            timeout = 2000
            args = ["--request-timeout", timeout, "--retry-timeout", 200, *(["--allow-server-port-change"] if change else [])]
            if r.random() < 0.5 and cl not in ("tftp-alloc", "tftp-stack"):
                args += ["--encryption-level", r.choice(("none", "optional-data", "optional-protocol"))]
            b.write("c/src", content)
            began = time.time()
            target = "%s:%d" % srv.addr
            try:
                if up:
                    rc, out, _ = b.client("send", *args, "-r", "name", target, b.path("c/src"), binary=cl, timeout=40)
                else:
                    rc, out, _ = b.client("receive", *args, "--local-path", b.path("c/%d" % n), target, "name", binary=cl, timeout=40)
                took = time.time() - began
            finally:
                st.close()
            got = None if up else b.read("c/%d" % n)
            what = "%s of %d bytes by %s %s from a server which is %s, with %d datagrams of strangers: status %s after %.1f s, %s" % (
                "upload" if up else "download", len(content), cl, args, plan, st.sent, rc, took, out[-250:])
            s.note(what)
            s.check(rc is not None, "the client does not end: " + what)
            s.check(rc is None or rc >= 0 and "panicked" not in out, "the client crashed: " + what)
            if up and rc == 0:
                srv.join(2)
            served = srv.complete and (srv.stored if up else got) == content
            if plan == "proper" or plan == "moves" and change:
                s.check(rc == 0 and served, what + "; server saw %r" % srv.seen[:3])
                s.check(took < 12, "slow: " + what)
            elif plan == "moves":
                s.check(rc != 0, "a reply from another port of the server was accepted: " + what)
            elif plan in ("error", "silent"):
                if srv.acted:
                    s.check(rc != 0, "reported as a success: " + what)
                    s.check(took < 12, "slow: " + what)
                else:
                    s.check(rc == 0 and served, what)
            else:
                s.check(took < 30, "slow: " + what)
            if not up and got:
                s.check(b"stranger" not in got, "data of a stranger was stored: " + what)
            if up:
                s.check(content.startswith(srv.stored), "the server was sent something else than the file: " + what)
            bad = [g[:40] for g in st.got if len(g) >= 2 and net.op(g) in (DATA, ACK, OACK, RRQ, WRQ)]
            s.check(not bad, "the client answered a stranger: %r; %s" % (bad[:2], what))
            s.res.count("clients_%s" % plan)
            s.res.count("datagrams_of_strangers", st.sent)
            s.res.case("%s %s %s %s %d %s" % (cl, plan, up, change, len(content), args))
            for x in st.socks:
                b.release(x)
            b.release(srv.sk)
            b.release(srv.reply)
            if s.failed:
                break


def parts():
    return {
        "C14": scenarios("strangers-at-real-clients", at_client, 160, 1000, workers=8),
        "C15": scenarios("strangers-at-the-sockets-of-real-sessions", at_server, 250, 2000, workers=5),
    }
