"""Raw TFTP helpers for the demonstrations: real binaries on loopback, everything in a scratch directory."""
import os, random, shutil, signal, socket, struct, subprocess, sys, tempfile, time

BIN = "/repo/target/"
RRQ, WRQ, DATA, ACK, ERROR, OACK = 1, 2, 3, 4, 5, 6


class Bench:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="tftp-demo-")
        self.procs = []
        self.socks = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in self.procs:
            if p.poll() is None:
                p.send_signal(signal.SIGKILL)
            p.wait()
        for s in self.socks:
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, data):
        os.makedirs(os.path.dirname(self.path(name)), exist_ok=True)
        with open(self.path(name), "wb") as f:
            f.write(data)
        return self.path(name)

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def sock(self, ip="127.0.0.1", timeout=2.0):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
        s.bind((ip, 0))
        s.settimeout(timeout)
        self.socks.append(s)
        return s

    def free_port(self):
        s = self.sock()
        port = s.getsockname()[1]
        s.close()
        return port

    def run(self, binary, *args, **kw):
        log = open(self.path("%s-%d.log" % (binary, len(self.procs))), "wb")
        p = subprocess.Popen([BIN + binary, *map(str, args)], stdout=log, stderr=log, cwd=self.dir, **kw)
        p.log = log.name
        self.procs.append(p)
        return p

    def server(self, *args, binary="tftp", directory="srv"):
        os.makedirs(self.path(directory), exist_ok=True)
        port = self.free_port()
        p = self.run(binary, "server", *args, "127.0.0.1:%d" % port, self.path(directory))
        p.port = port
        # it is up once it holds its port
        end = time.time() + 20
        while time.time() < end:
            if p.poll() is not None:
                raise SystemExit("server ended: " + open(p.log).read())
            if ("%04X" % port) in open("/proc/net/udp").read():
                break
            time.sleep(0.05)
        time.sleep(0.2)
        return p

    def client(self, *args, binary="tftp", timeout=60):
        p = self.run(binary, *args)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            return None


def request(op, name, options=(), mode=b"octet"):
    if isinstance(name, str):
        name = name.encode()
    r = struct.pack(">H", op) + name + b"\0" + mode + b"\0"
    for k, v in options:
        r += k.encode() + b"\0" + (v if isinstance(v, bytes) else str(v).encode()) + b"\0"
    return r


def ack(n):
    return struct.pack(">HH", ACK, n & 0xFFFF)


def data(n, payload):
    return struct.pack(">HH", DATA, n & 0xFFFF) + payload


def op(p):
    return struct.unpack(">H", p[:2])[0]


def num(p):
    return struct.unpack(">H", p[2:4])[0]


def oack_options(p):
    f = p[2:].split(b"\0")
    return {f[i].decode(): f[i + 1].decode() for i in range(0, len(f) - 1, 2)}


def recv(s, timeout=2.0):
    """-> (packet, address) or (None, None)"""
    s.settimeout(timeout)
    try:
        return s.recvfrom(70000)
    except (socket.timeout, BlockingIOError):
        return None, None


def drain(s, timeout):
    """every packet until nothing came for `timeout`"""
    got = []
    while True:
        p, a = recv(s, timeout)
        if p is None:
            return got
        got.append(p)


def start(s, port, packet, timeout=3.0, tries=3):
    """send a request, return the first reply"""
    for _ in range(tries):
        s.sendto(packet, ("127.0.0.1", port))
        p, a = recv(s, timeout)
        if p is not None:
            return p, a
    return None, None


def download(s, port, name, options=(), timeout=3.0):
    """lockstep download by a plain client; -> bytes or the error packet"""
    p, a = start(s, port, request(RRQ, name, options), timeout)
    if p is None:
        return None
    bs, win = 512, 1
    if op(p) == OACK:
        o = oack_options(p)
        bs, win = int(o.get("blksize", 512)), int(o.get("windowsize", 1))
        s.sendto(ack(0), a)
        p, a = recv(s, timeout)
    out, want = b"", 1
    while p is not None:
        if op(p) == ERROR:
            return p
        if op(p) == DATA:
            if num(p) == want & 0xFFFF:
                out += p[4:]
                want += 1
                last = len(p) - 4 < bs
                if last or (want - 1) % win == 0:
                    s.sendto(ack(want - 1), a)
                if last:
                    return out
            else:
                s.sendto(ack(want - 1), a)
        p, a = recv(s, timeout)
    return None


def upload(s, port, name, content, options=(), timeout=3.0):
    """lockstep upload by a plain client; -> True or the error packet or None"""
    p, a = start(s, port, request(WRQ, name, options), timeout)
    if p is None:
        return None
    bs = 512
    if op(p) == ERROR:
        return p
    if op(p) == OACK:
        bs = int(oack_options(p).get("blksize", 512))
    n = 1
    while True:
        chunk = content[(n - 1) * bs:n * bs]
        for _ in range(10):
            s.sendto(data(n, chunk), a)
            p, _a = recv(s, timeout)
            while p is not None and not (op(p) == ERROR or (op(p) == ACK and num(p) == n & 0xFFFF)):
                p, _a = recv(s, timeout)
            if p is not None:
                break
        if p is None:
            return None
        if op(p) == ERROR:
            return p
        if len(chunk) < bs:
            return True
        n += 1


def content(n, seed=1):
    return random.Random(seed).randbytes(n)


def verdict(ok, text):
    print(("ok: " if ok else "FAILED: ") + text)
    sys.exit(0 if ok else 1)
