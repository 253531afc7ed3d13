"""Raw TFTP over loopback and a scratch bench for the real command-line binaries."""
import errno
import os
import random
import select
import shutil
import signal
import socket
import stat
import struct
import subprocess
import tempfile
import threading
import time

RRQ, WRQ, DATA, ACK, ERROR, OACK = 1, 2, 3, 4, 5, 6
NOBODY = 65534


def request(op, name, options=(), mode=b"octet"):
    if isinstance(name, str):
        name = name.encode()
    r = struct.pack(">H", op) + name + b"\0" + mode + b"\0"
    for k, v in options:
        r += k.encode() + b"\0" + (v if isinstance(v, bytes) else str(v).encode()) + b"\0"
    return r


def ack(n):
    return struct.pack(">HH", ACK, n & 0xFFFF)


def data(n, payload):
    return struct.pack(">HH", DATA, n & 0xFFFF) + payload


def error(code, text=b"no"):
    return struct.pack(">HH", ERROR, code) + text + b"\0"


def op(p):
    return struct.unpack(">H", p[:2])[0] if len(p) >= 2 else None


def num(p):
    return struct.unpack(">H", p[2:4])[0]


def oack_options(p):
    f = p[2:].split(b"\0")
    return {f[i].decode("latin-1").lower(): f[i + 1].decode("latin-1") for i in range(0, len(f) - 1, 2)}


def err_text(p):
    return "%d %s" % (num(p), p[4:].rstrip(b"\0").decode("utf-8", "replace"))


def recv(s, timeout=2.0):
    """-> (packet, address) or (None, None)"""
    s.settimeout(max(timeout, 0.001))
    try:
        return s.recvfrom(70000)
    except (socket.timeout, BlockingIOError, ConnectionRefusedError):
        return None, None


def drain(s, quiet):
    got = []
    while True:
        p, _ = recv(s, quiet)
        if p is None:
            return got
        got.append(p)


def start(s, addr, packet, timeout=3.0, tries=4):
    """send a request until something answers -> (first reply, its address)"""
    for _ in range(tries):
        s.sendto(packet, addr)
        p, a = recv(s, timeout)
        if p is not None:
            return p, a
    return None, None


class Outcome:
    """what a raw client saw: ok (complete), error packet, or silence"""

    def __init__(self, kind, content=b"", reply=None, options=None):
        self.kind, self.content, self.reply, self.options = kind, content, reply, options or {}

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return "%s(%s%d bytes)" % (self.kind, err_text(self.reply) + ", " if self.kind == "error" else "", len(self.content))


def download(s, addr, name, options=(), timeout=3.0, limit=1 << 30, tries=4):
    """download by a plain client -> Outcome; content holds what arrived in order even if it did not complete"""
    p, a = start(s, addr, request(RRQ, name, options), timeout, tries)
    if p is None:
        return Outcome("silent")
    bs, win, o = 512, 1, {}
    if op(p) == OACK:
        o = oack_options(p)
        bs, win = int(o.get("blksize", 512)), int(o.get("windowsize", 1))
        s.sendto(ack(0), a)
        first = (ack(0), a)
        p, a2 = recv(s, timeout)
    else:
        first = None
    out, want, idle = [], 1, 0
    size = 0
    while True:
        if p is None:
            idle += 1
            if idle > 4:
                return Outcome("silent", b"".join(out), options=o)
            s.sendto(ack(want - 1), a)
        elif op(p) == ERROR:
            return Outcome("error", b"".join(out), p, o)
        elif op(p) == DATA:
            idle = 0
            if num(p) == want & 0xFFFF:
                out.append(p[4:])
                size += len(p) - 4
                want += 1
                last = len(p) - 4 < bs
                if last or (want - 1) % win == 0:
                    s.sendto(ack(want - 1), a)
                if last:
                    return Outcome("ok", b"".join(out), options=o)
                if size > limit:
                    return Outcome("limit", b"".join(out), options=o)
            else:
                s.sendto(ack(want - 1), a)
        p, _ = recv(s, timeout)


def upload(s, addr, name, content, options=(), timeout=3.0, stop_after=None, tries=4):
    """upload by a plain client, one block at a time -> Outcome"""
    p, a = start(s, addr, request(WRQ, name, options), timeout, tries)
    if p is None:
        return Outcome("silent")
    bs, o = 512, {}
    if op(p) == ERROR:
        return Outcome("error", reply=p)
    if op(p) == OACK:
        o = oack_options(p)
        bs = int(o.get("blksize", 512))
    win = int(o.get("windowsize", 1))
    n = 1
    while True:
        if stop_after is not None and n > stop_after:
            return Outcome("stopped", options=o, reply=a)
        # a window of blocks, then one acknowledgement
        blocks = []
        for k in range(win):
            chunk = content[(n + k - 1) * bs:(n + k) * bs]
            blocks.append((n + k, chunk))
            if len(chunk) < bs:
                break
        done = None
        for _ in range(6):
            for k, chunk in blocks:
                s.sendto(data(k, chunk), a)
            end = time.time() + timeout
            while time.time() < end:
                p, _a = recv(s, end - time.time())
                if p is None:
                    break
                if op(p) == ERROR:
                    return Outcome("error", reply=p, options=o)
                if op(p) == ACK and num(p) == blocks[-1][0] & 0xFFFF:
                    done = True
                    break
            if done:
                break
        if not done:
            return Outcome("silent", options=o)
        if len(blocks[-1][1]) < bs:
            return Outcome("ok", options=o)
        n = blocks[-1][0] + 1


def can_drop():
    """whether processes of another user can be started here"""
    try:
        return subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (PermissionError, OSError, subprocess.SubprocessError):
        return False


_drop = None
# (text -> report or None): looks at the output of every process of a bench when it is closed
INSPECT = None
REPORTS = []


def scratch():
    """where files cost no disk access, if there is such a place"""
    try:
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize > 2 << 30 and not v.f_flag & os.ST_NOEXEC and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return None


class Bench:
    """scratch directory, processes and sockets, all removed at the end"""

    def __init__(self, binaries=None, drop=True):
        global _drop
        if _drop is None:
            _drop = can_drop()
        self.drop = drop and _drop
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="tftp-verif-", dir=scratch()))
        os.chmod(self.dir, 0o755)
        self.procs = []
        self.all = []
        self.socks = []
        self.bins = {}
        self.bins.update(binaries or {})
        self.logs = os.path.join(self.dir, "logs")
        os.mkdir(self.logs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    p.send_signal(signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
        for s in self.socks:
            s.close()
        if INSPECT:
            for p in self.all:
                r = INSPECT(self.log(p))
                if r:
                    REPORTS.append((" ".join(p.cmd)[:300], r))
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def own(self, path):
        """give a file or a whole tree to the user the processes run as"""
        if self.drop:
            os.chown(path, NOBODY, NOBODY, follow_symlinks=False)
            if os.path.isdir(path) and not os.path.islink(path):
                for d, ds, fs in os.walk(path):
                    for f in ds + fs:
                        os.chown(os.path.join(d, f), NOBODY, NOBODY, follow_symlinks=False)
        return path

    def mkdir(self, *p):
        os.makedirs(self.path(*p), exist_ok=True)
        q = self.path(*p)
        while q != self.dir:
            self.own_one(q)
            q = os.path.dirname(q)
        return self.path(*p)

    def own_one(self, path):
        if self.drop:
            os.chown(path, NOBODY, NOBODY, follow_symlinks=False)

    def write(self, name, content):
        p = self.path(name)
        self.mkdir(os.path.dirname(name)) if os.path.dirname(name) else None
        with open(p, "wb") as f:
            f.write(content)
        self.own_one(p)
        return p

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def sock(self, ip="127.0.0.1", timeout=2.0):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        s.bind((ip, 0))
        s.settimeout(timeout)
        self.socks.append(s)
        return s

    def release(self, s):
        s.close()
        if s in self.socks:
            self.socks.remove(s)

    def free_port(self):
        s = self.sock()
        port = s.getsockname()[1]
        self.release(s)
        return port

    def run(self, binary, *args, cwd=None, env=None, drop=None, wrap=()):
        log = open(os.path.join(self.logs, "%d.log" % len(self.all)), "wb")
        kw = {}
        if self.drop if drop is None else drop:
            kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        e = {"PATH": os.environ.get("PATH", ""), "HOME": self.dir}
        e.update(env or {})
        p = subprocess.Popen([*wrap, self.bins.get(binary, binary), *map(str, args)], stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                             cwd=cwd or self.dir, env=e, **kw)
        log.close()
        p.logfile = log.name
        p.cmd = [binary, *map(str, args)]
        self.procs.append(p)
        self.all.append(p)
        return p

    def log(self, p):
        with open(p.logfile, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def server(self, directory, *args, binary="tftp", cwd=None, host="127.0.0.1", env=None, drop=None, wrap=(), patience=30):
        for _ in range(5):
            port = self.free_port()
            p = self.run(binary, "server", *args, "%s:%d" % (host, port), directory, cwd=cwd, env=env, drop=drop, wrap=wrap)
            p.port = port
            p.addr = (host, port)
            end = time.time() + patience
            while time.time() < end:
                if p.poll() is not None:
                    break
                if any((":%04X " % port) in l for l in open("/proc/net/udp")):
                    time.sleep(0.05)
                    return p
                time.sleep(0.02)
            if "in use" not in self.log(p):
                break
        raise RuntimeError("server does not start: %s\n%s" % (" ".join(p.cmd), self.log(p)))

    def client(self, *args, binary="tftp", timeout=120, cwd=None, env=None, wrap=()):
        """-> (exit status or None if it had to be stopped, output, seconds)"""
        t = time.time()
        p = self.run(binary, *args, cwd=cwd, env=env, wrap=wrap)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        return rc, self.log(p), time.time() - t

    def stop(self, p):
        if p.poll() is None:
            p.kill()
        p.wait()
        if p in self.procs:
            self.procs.remove(p)


def snapshot(root, skip=()):
    """everything below root: path -> (kind, content or target)"""
    out = {}
    for d, ds, fs in os.walk(root):
        keep = []
        for n in ds:
            p = os.path.join(d, n)
            if p in skip:
                continue
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            else:
                out[p] = ("dir", "")
                keep.append(n)
        ds[:] = keep
        for n in fs:
            p = os.path.join(d, n)
            if p in skip:
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[p] = ("link", os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[p] = ("file", f.read())
            else:
                out[p] = ("other", "")
    return out


def differences(a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            what = "created" if p not in a else "removed" if p not in b else "changed"
            out.append((what, p, b.get(p, a.get(p))[0]))
    return out


class Proxy(threading.Thread):
    """UDP proxy which loses, repeats and delays packets: rule(n, direction, packet) -> list of delays in seconds (empty: lost)"""

    def __init__(self, target, rule, host="127.0.0.1"):
        super().__init__(daemon=True)
        self.target, self.rule = target, rule
        self.front = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.front.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        self.front.bind((host, 0))
        self.addr = self.front.getsockname()
        self.back = {}
        self.peer = {}
        self.done = threading.Event()
        self.packets = self.lost = 0
        self.log = []
        self.start()

    def run(self):
        pending, n = [], 0
        while not self.done.is_set():
            wait = 0.05
            now = time.time()
            if pending:
                wait = min(wait, max(0, min(x[0] for x in pending) - now))
            socks = [self.front] + [b for b in self.back.values()]
            try:
                ready, _, _ = select.select(socks, [], [], wait)
            except (OSError, ValueError):
                return
            for s in ready:
                try:
                    p, a = s.recvfrom(70000)
                except OSError:
                    continue
                if s is self.front:
                    if a not in self.back:
                        b = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                        b.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
                        b.bind((self.target[0], 0))
                        self.back[a] = b
                    out, to, d = self.back[a], self.peer.get(a, self.target), "up"
                else:
                    to = next(k for k, v in self.back.items() if v is s)
                    out, d = self.front, "down"
                    # the server may answer from another port
                    self.peer[to] = a
                delays = self.rule(n, d, p)
                n += 1
                self.packets += 1
                if not delays:
                    self.lost += 1
                for x in delays:
                    if x <= 0:
                        self.send(out, p, to)
                    else:
                        pending.append((time.time() + x, n, out, p, to))
            now = time.time()
            for x in sorted([x for x in pending if x[0] <= now], key=lambda x: x[:2]):
                self.send(x[2], x[3], x[4])
            pending = [x for x in pending if x[0] > now]

    @staticmethod
    def send(s, p, to):
        try:
            s.sendto(p, to)
        except OSError:
            pass

    def close(self):
        self.done.set()
        self.join(2)
        self.front.close()
        for b in self.back.values():
            b.close()


def rand_bytes(r, n):
    return r.randbytes(n)
