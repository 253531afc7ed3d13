"""C31, C23, C24: the command-line client and server in all build flavours."""
import base64
import hashlib
import os
import random
import re
import signal
import threading
import time

from . import net
from .e2e import ALL, panicked, scenarios, watch_server
from .net import Bench, Proxy

ENC = ("tftp", "tftp-stack-encryption")


# --- ed25519 public keys (RFC 8032), to know which key belongs to which private text
P = 2 ** 255 - 19
D = -121665 * pow(121666, P - 2, P) % P


def _add(a, b):
    x1, y1, z1, t1 = a
    x2, y2, z2, t2 = b
    A, B, C, E = (y1 - x1) * (y2 - x2) % P, (y1 + x1) * (y2 + x2) % P, 2 * t1 * t2 * D % P, 2 * z1 * z2 % P
    e, f, g, h = B - A, E - C, E + C, B + A
    return e * f % P, g * h % P, f * g % P, e * h % P


def _base():
    y = 4 * pow(5, P - 2, P) % P
    xx = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(xx, (P + 3) // 8, P)
    if (x * x - xx) % P:
        x = x * pow(2, (P - 1) // 4, P) % P
    if x % 2:
        x = P - x
    return x, y, 1, x * y % P


G = _base()


def public(secret):
    h = hashlib.sha512(secret).digest()
    a = int.from_bytes(h[:32], "little")
    a = (a & ((1 << 254) - 8)) | (1 << 254)
    q, g = (0, 1, 1, 0), G
    while a:
        if a & 1:
            q = _add(q, g)
        g = _add(g, g)
        a >>= 1
    z = pow(q[2], P - 2, P)
    x, y = q[0] * z % P, q[1] * z % P
    return (y | (x & 1) << 255).to_bytes(32, "little")


def b64(b):
    return base64.b64encode(b).decode()


class Key:
    def __init__(self, r):
        self.secret = r.randbytes(32)
        self.private = b64(self.secret)
        self.public = b64(public(self.secret))


def says_why(out):
    """some line of the output is a message"""
    return any(len(re.findall(r"[A-Za-z]{3,}", l)) >= 2 for l in out.splitlines())


def opts(r, client, prefer_seek=True):
    o = []
    if r.random() < 0.7:
        o += ["--block-size", r.choice((512, 513, 600, 1024, 1400, 1425))]
    if r.random() < 0.7:
        o += ["--window-size", r.choice((1, 2, 3, 8, 16))]
    if r.random() < 0.3:
        o += ["--retry-timeout", r.choice((80, 100, 250))]
    return o


SIZES = (0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 1425, 2850, 4096, 10000, 51200, 70000, 200000)


# --- C31: pairs -----------------------------------------------------------------------------------------------------
def pair(s):
    r = s.r
    server, client = ALL[s.index % 4], ALL[s.index // 4 % 4]
    both = server in ENC and client in ENC
    with Bench({n: s.bins[n] for n in {server, client}}) as b:
        b.mkdir("srv")
        b.mkdir("c")
        sargs, key, ckey = ["--request-timeout", "4000"], None, None
        if r.random() < 0.3:
            sargs += ["--prefer-seek"]
        if r.random() < 0.3:
            sargs += ["--max-window-size", str(r.choice((1, 2, 5)))]
        if r.random() < 0.3:
            sargs += ["--max-block-size", str(r.choice((512, 700, 1425)))]
        port_change = r.random() < 0.25
        if port_change:
            sargs += ["--require-server-port-change=true"]
        authorized = False
        if server in ENC and r.random() < 0.5:
            key, ckey = Key(r), Key(r)
            sargs += ["--private-key", key.private]
            if both and r.random() < 0.5:
                authorized = True
                b.write("c/authorized", (ckey.public + "\n").encode())
                sargs += ["--authorized-keys", b.path("c/authorized")]
        p = b.server(b.path("srv"), *sargs, binary=server)
        for n in range(5):
            size = r.choice(SIZES)
            content = r.randbytes(size)
            up = r.random() < 0.5
            args = opts(r, client) + ["--request-timeout", "9000"]
            if port_change:
                args += ["--allow-server-port-change"]
            level = None
            if client in ENC:
                if authorized:
                    level = "protocol"
                    args += ["--private-key", ckey.private, "--server-public-key", key.public]
                else:
                    level = r.choice(("none", "optional-data", "optional-protocol") + (("data", "protocol") if both else ()))
                    if key and r.random() < 0.5:
                        args += ["--server-public-key", key.public]
                        if r.random() < 0.5:
                            args += ["--private-key", ckey.private]
                args += ["--encryption-level", level]
            if up and r.random() < 0.3:
                args += ["--prefer-seek"]
            lossy = r.random() < 0.4
            target, proxy = "%s:%d" % p.addr, None
            if lossy:
                proxy = Proxy(p.addr, losses(r))
                target = "%s:%d" % proxy.addr
            name = "f%d-%d" % (s.index, n)
            if up:
                b.write("c/" + name, content)
                rc, out, secs = b.client("send", *args, target, b.path("c", name), binary=client, timeout=60)
                got = b.read("srv/" + name)
            else:
                b.write("srv/" + name, content)
                rc, out, secs = b.client("receive", *args, "--local-path", b.path("c", name), target, name, binary=client, timeout=60)
                got = b.read("c/" + name)
            lost = proxy.lost if proxy else 0
            if proxy:
                proxy.close()
            s.note("%s %s -> %s %d bytes %s lost %d: %s in %.1f s" % (client, "send" if up else "receive", server, size, args, lost, rc, secs))
            who = "%s of %s %s %s with %s (%s), %d packets lost" % ("send" if up else "receive", client, "to" if up else "from", server, args, sargs, lost)
            if rc == 0:
                s.check(got == content, "%s: exit status 0, but the destination has %s of %d bytes" % (who, got and len(got), size))
                s.res.count("successful_transfers")
            elif lossy and up and got == content:
                # the very last acknowledgement may have been lost
                s.res.count("last_ack_lost")
                s.check(rc is not None and says_why(out), "%s: exit status %s without a message" % (who, rc))
            else:
                s.fail("%s: failed with status %s after %.1f s: %s" % (who, rc, secs, out[-500:]))
            s.check(not panicked(out), "%s: the client panicked: %s" % (who, out[-500:]))
            s.res.count("transfers")
            s.res.count("pair %s/%s" % (client, server))
            if lossy:
                s.res.count("packets_lost", lost)
            s.res.case("%s %s %s %s %s %s" % (client, server, up, size, args, lost > 0))
            if s.failed:
                break
        watch_server(s, b, p)


def losses(r):
    """a few single losses and repetitions, never of a request's repetition"""
    left = [r.randrange(1, 7)]
    rate = r.choice((0.02, 0.1, 0.3))
    q = random.Random(r.getrandbits(60))

    def rule(n, d, packet):
        if left[0] > 0 and q.random() < rate:
            left[0] -= 1
            return []
        if q.random() < 0.02 and net.op(packet) in (net.DATA, net.ACK) and len(packet) < 1500:
            return [0, 0.002]
        return [0]

    return rule


# --- C31: failures --------------------------------------------------------------------------------------------------
def failing(s):
    r = s.r
    cases = sorted(CASES)
    name = cases[s.index % len(cases)]
    server = ALL[(s.index // len(cases)) % 4] if s.index >= len(cases) else r.choice(ALL)
    client = r.choice(ALL)
    need = CASES[name][1]
    if "client-enc" in need:
        client = r.choice(ENC)
    if "server-enc" in need:
        server = r.choice(ENC)
    if "server-plain" in need:
        server = r.choice(("tftp-alloc", "tftp-stack"))
    with Bench({n: s.bins[n] for n in {server, client}}) as b:
        b.mkdir("srv")
        b.mkdir("c")
        f = Failing(s, b, server, client)
        CASES[name][0](f)
        s.res.case("%s %s %s" % (name, client, server))
        s.res.count("failures_provoked")


class Failing:
    def __init__(self, s, b, server, client):
        self.s, self.b, self.r = s, b, s.r
        self.sname, self.cname = server, client
        self.content = s.r.randbytes(s.r.choice((1, 700, 5000, 60000)))

    def server(self, *args, **kw):
        self.p = self.b.server(self.b.path("srv"), "--request-timeout", "3000", *args, binary=self.sname, **kw)
        return "%s:%d" % self.p.addr

    def run(self, what, *args, timeout=40, **kw):
        rc, out, secs = self.b.client(what, "--request-timeout", "1500", *args, binary=self.cname, timeout=timeout, **kw)
        self.s.note("%s %s %r -> %s in %.1f s: %s" % (self.cname, what, args, rc, secs, out[-200:]))
        return rc, out

    def must_fail(self, why, what, *args, **kw):
        rc, out = self.run(what, *args, **kw)
        who = "%s %s %s (server %s) %s" % (self.cname, what, list(args), self.sname, why)
        self.s.check(rc is not None, "%s: the client did not end" % who)
        self.s.check(rc != 0, "%s: exit status 0: %s" % (who, out[-300:]))
        self.s.check(says_why(out), "%s: exit status %s without a message: %r" % (who, rc, out[-300:]))
        self.s.check(not panicked(out), "%s: the client panicked: %s" % (who, out[-500:]))
        if hasattr(self, "p"):
            watch_server(self.s, self.b, self.p, killed=getattr(self, "killed", False))
        return rc

    def src(self, content=None):
        return self.b.write("c/src", self.content if content is None else content)

    def level(self, *levels):
        return ["--encryption-level", self.r.choice(levels)] if self.cname in ENC else []


def missing_remote(f):
    f.must_fail("of a file which does not exist", "receive", "--local-path", f.b.path("c/x"), f.server(), f.r.choice(("nothing", "no/thing", "ü")))


def directory_remote(f):
    f.b.mkdir("srv/sub")
    f.must_fail("of a directory", "receive", "--local-path", f.b.path("c/x"), f.server(), "sub")


def existing_remote(f):
    f.b.write("srv/there", b"old")
    f.must_fail("to a name which exists", "send", "-r", "there", f.server(), f.src())
    f.s.check(f.b.read("srv/there") == b"old", "the existing file changed")


def no_server(f):
    port = f.b.free_port()
    if f.r.random() < 0.5:
        f.must_fail("without a server", "send", "127.0.0.1:%d" % port, f.src())
    else:
        f.must_fail("without a server", "receive", "--local-path", f.b.path("c/x"), "127.0.0.1:%d" % port, "x")


def deaf_server(f):
    sk = f.b.sock()
    f.must_fail("to a silent server", f.r.choice(("send",)), "127.0.0.1:%d" % sk.getsockname()[1], f.src())


def interrupted(f):
    """the connection is cut after some packets"""
    content = f.r.randbytes(f.r.choice((20000, 100000)))
    f.server()
    after = f.r.randrange(1, 30)
    both = f.r.random() < 0.5
    d = "down" if f.r.random() < 0.5 else "up"
    proxy = Proxy(f.p.addr, lambda n, way, p: [0] if n < after or (not both and way != d) else [])
    target = "%s:%d" % proxy.addr
    small = ["--block-size", "512", "--window-size", f.r.choice(("1", "4"))]
    if f.r.random() < 0.5:
        f.must_fail("cut off after %d packets" % after, "send", *small, "-r", "x", target, f.src(content))
    else:
        f.b.write("srv/x", content)
        f.must_fail("cut off after %d packets" % after, "receive", *small, "--local-path", f.b.path("c/x"), target, "x")
    proxy.close()


def server_killed(f):
    content = f.r.randbytes(300000)
    f.server()
    f.killed = True
    slow = [0]
    when = f.r.randrange(5, 60)

    def rule(n, way, p):
        if n == when:
            f.p.kill()
        return [0.001]

    proxy = Proxy(f.p.addr, rule)
    target = "%s:%d" % proxy.addr
    small = ["--block-size", "512", "--window-size", "1"]
    if f.r.random() < 0.5:
        f.must_fail("to a server which was killed", "send", *small, "-r", "x", target, f.src(content))
    else:
        f.b.write("srv/x", content)
        f.must_fail("from a server which was killed", "receive", *small, "--local-path", f.b.path("c/x"), target, "x")
    proxy.close()


def server_limit(f):
    limit = f.r.choice((1, 512, 5000, 20000))
    content = f.r.randbytes(limit + f.r.choice((1, 600, 5000)))
    target = f.server("--max-file-size", limit)
    args = [] if f.r.random() < 0.5 else ["--block-size", "512", "--window-size", "1"]
    f.must_fail("of %d bytes, above the limit %d of the server" % (len(content), limit), "send", *args, "-r", "x", target, f.src(content))
    got = f.b.read("srv/x")
    f.s.check(got is None or len(got) <= limit + 1425, "the server stored %s bytes, its limit is %d" % (got and len(got), limit))


def server_limit_pipe(f):
    """a source of unknown size"""
    if f.cname not in ENC:
        return server_limit(f)
    limit = f.r.choice((512, 5000, 20000))
    content = f.r.randbytes(limit + f.r.choice((600, 5000)))
    target = f.server("--max-file-size", limit)
    f.must_fail("of an encrypted file above the limit of the server", "send", "--encryption-key", Key(f.r).private, "-r", "x", target, f.src(content))


def client_limit(f):
    limit = f.r.choice((1, 512, 5000, 20000))
    content = f.r.randbytes(limit + f.r.choice((1, 600, 5000)))
    f.b.write("srv/x", content)
    f.must_fail("of %d bytes, above its own limit %d" % (len(content), limit), "receive", "--max-file-size", limit, "--local-path", f.b.path("c/x"), f.server(), "x")


def local_unwritable(f):
    f.b.write("srv/x", f.content)
    if f.b.drop:
        os.mkdir(f.b.path("locked"))
        os.chmod(f.b.path("locked"), 0o755)
        bad = [f.b.path("locked/x")]
    else:
        bad = []
    bad += [f.b.path("nodir/x"), f.b.path("c"), f.b.path("srv/x/y")]
    f.must_fail("to a place which cannot be written", "receive", "--local-path", f.r.choice(bad), f.server(), "x")


def local_full(f):
    f.b.write("srv/x", f.content)
    f.must_fail("to a full device", "receive", "--local-path", "/dev/full", f.server(), "x")


def local_missing(f):
    f.must_fail("of a local file which cannot be read", "send", "-r", "x", f.server(), f.r.choice((f.b.path("c/none"), f.b.path("c"), "/", "nodir/none")))


def local_read_error(f):
    # reading address 0 of the own memory fails
    f.must_fail("of a source which fails", "send", "-r", "x", f.server(), "/proc/self/mem")


def source_unnamed(f):
    f.must_fail("of a path without a file name", "send", f.server(), f.r.choice(("..", "/", "c/..")))


def client_disk_full(f):
    f.b.write("srv/x", f.r.randbytes(40000))
    f.must_fail("beyond its file size limit", "receive", "--local-path", f.b.path("c/x"), f.server(), "x",
                wrap=("/bin/bash", "-c", 'trap "" XFSZ; ulimit -f %d; exec "$@"' % f.r.choice((1, 8, 38)), "sh"))


def server_disk_full(f):
    target = f.server(wrap=("/bin/bash", "-c", 'trap "" XFSZ; ulimit -f %d; exec "$@"' % f.r.choice((8, 20, 38)), "sh"))
    f.must_fail("to a server whose disk is full", "send", "-r", "x", target, f.src(f.r.randbytes(40000)))


def server_unwritable(f):
    if not f.b.drop:
        return missing_remote(f)
    os.chown(f.b.path("srv"), 0, 0)
    f.must_fail("to a directory the server cannot write", "send", "-r", f.r.choice(("x", "sub/x")), f.server(), f.src())


def bad_remote_name(f):
    f.must_fail("of an impossible name", "receive", "--local-path", f.b.path("c/x"), f.server(), f.r.choice(("..", ".", "/", "../..", "a" * 149 + "/../..")))


def too_deep(f):
    name = "/".join("d%d" % i for i in range(14)) + "/x"
    f.must_fail("of a name too deep", "send", "-r", name, f.server(), f.src())
    f.s.check(not os.path.exists(f.b.path("srv/d0/d1/d2/d3/d4/d5/d6/d7/d8/d9/d10/d11")), "directories deeper than the limit were created")


def bad_endpoint(f):
    f.must_fail("to an endpoint which does not exist", f.r.choice(("send",)), f.r.choice(("nosuch.invalid:1", "127.0.0.1:99999", "127.0.0.1:", ":", "::1", "x")), f.src())


def plain_to_required(f):
    target = f.server("--require-full-encryption=true", *(["--error-to-authorized-only=false"] if f.r.random() < 0.5 else []))
    if f.r.random() < 0.5:
        f.must_fail("in the clear to a server which requires encryption", "send", *f.level("none"), "-r", "x", target, f.src())
        f.s.check(not os.path.exists(f.b.path("srv/x")), "the refused upload left a file")
    else:
        f.b.write("srv/x", f.content)
        f.must_fail("in the clear from a server which requires encryption", "receive", *f.level("none"), "--local-path", f.b.path("c/x"), target, "x")


def required_to_plain(f):
    target = f.server()
    level = ["--encryption-level", f.r.choice(("protocol", "data"))]
    if f.r.random() < 0.5:
        f.must_fail("with required encryption to a server without", "send", *level, "-r", "x", target, f.src())
        got = f.b.read("srv/x")
        f.s.check(not got, "content arrived in the clear: %r" % (got and got[:40]))
    else:
        f.b.write("srv/x", f.content)
        f.must_fail("with required encryption from a server without", "receive", *level, "--local-path", f.b.path("c/x"), target, "x")
        f.s.check(not f.b.read("c/x"), "content was stored")


def wrong_server_key(f):
    k, other, own = Key(f.r), Key(f.r), Key(f.r)
    target = f.server("--private-key", k.private)
    args = ["--encryption-level", f.r.choice(("protocol",)), "--server-public-key", other.public, "--private-key", own.private]
    f.b.write("srv/y", f.content)
    if f.r.random() < 0.5:
        f.must_fail("with another server's key", "send", *args, "-r", "x", target, f.src())
        f.s.check(not f.b.read("srv/x"), "content arrived")
    else:
        f.must_fail("with another server's key", "receive", *args, "--local-path", f.b.path("c/x"), target, "y")
        f.s.check(not f.b.read("c/x"), "content was stored")


def unauthorized(f):
    k, good, bad = Key(f.r), Key(f.r), Key(f.r)
    f.b.write("c/keys", ("# keys\n%s\n" % good.public).encode())
    target = f.server("--private-key", k.private, "--authorized-keys", f.b.path("c/keys"))
    args = ["--encryption-level", "protocol", "--server-public-key", k.public]
    args += ["--private-key", bad.private] if f.r.random() < 0.7 else []
    f.b.write("srv/y", f.content)
    if f.r.random() < 0.5:
        f.must_fail("without an authorized key", "send", *args, "-r", "x", target, f.src())
        f.s.check(not os.path.exists(f.b.path("srv/x")), "an unauthorized upload left a file")
    else:
        f.must_fail("without an authorized key", "receive", *args, "--local-path", f.b.path("c/x"), target, "y")
        f.s.check(not f.b.read("c/x"), "content was stored")


def bad_key_text(f):
    target = f.server()
    k = Key(f.r)
    which = f.r.choice(("--private-key", "--server-public-key", "--encryption-key", "--encryption-level", "--known-hosts"))
    bad = {"--encryption-level": "strong", "--known-hosts": f.b.path("c/nohosts")}.get(which, f.r.choice(("!!!", "short*", k.private + "AAAA", k.private[:-1] + "*")))
    f.must_fail("with %s %r" % (which, bad), "send", which, bad, "-r", "x", target, f.src())


def wrong_file_key(f):
    k, other = Key(f.r), Key(f.r)
    target = f.server()
    rc, out = f.run("send", "--encryption-key", k.private, "-r", "x", target, f.src())
    if f.s.check(rc == 0, "sending with an encryption key failed: %s" % out[-300:]):
        f.must_fail("with another encryption key", "receive", "--encryption-key", other.private, "--local-path", f.b.path("c/x"), target, "x")
        f.s.check(f.b.read("c/x") in (None, b""), "content was stored with another key")


def plain_file_with_key(f):
    k = Key(f.r)
    target = f.server()
    f.b.write("srv/x", f.content)
    f.must_fail("of a plain file with an encryption key", "receive", "--encryption-key", k.private, "--local-path", f.b.path("c/x"), target, "x")


def port_moved(f):
    f.b.write("srv/x", f.content)
    f.must_fail("from a server which changes its port, which was not allowed", "receive", "--local-path", f.b.path("c/x"), f.server("--require-server-port-change=true"), "x")


CASES = {
    "missing-remote": (missing_remote, ()), "directory-remote": (directory_remote, ()), "existing-remote": (existing_remote, ()),
    "no-server": (no_server, ()), "deaf-server": (deaf_server, ()), "interrupted": (interrupted, ()), "interrupted2": (interrupted, ()), "server-killed": (server_killed, ()),
    "server-limit": (server_limit, ()), "server-limit-pipe": (server_limit_pipe, ()), "client-limit": (client_limit, ()),
    "local-unwritable": (local_unwritable, ()), "local-full": (local_full, ()), "local-missing": (local_missing, ()), "local-read-error": (local_read_error, ()),
    "source-unnamed": (source_unnamed, ()), "client-disk-full": (client_disk_full, ()), "server-disk-full": (server_disk_full, ()), "server-unwritable": (server_unwritable, ()),
    "bad-remote-name": (bad_remote_name, ()), "too-deep": (too_deep, ()), "bad-endpoint": (bad_endpoint, ()),
    "plain-to-required": (plain_to_required, ("server-enc",)), "required-to-plain": (required_to_plain, ("client-enc", "server-plain")),
    "wrong-server-key": (wrong_server_key, ("client-enc", "server-enc")), "unauthorized": (unauthorized, ("client-enc", "server-enc")),
    "bad-key-text": (bad_key_text, ("client-enc",)), "wrong-file-key": (wrong_file_key, ("client-enc",)), "plain-file-with-key": (plain_file_with_key, ("client-enc",)),
    "port-moved": (port_moved, ()),
}


# --- C31: pipes and defaults ----------------------------------------------------------------------------------------
def pipes(s):
    """/dev/stdin as source, /dev/stdout as destination, default names, other spellings of the endpoint"""
    r = s.r
    server, client = r.choice(ALL), ALL[s.index % 4]
    import subprocess
    with Bench({n: s.bins[n] for n in {server, client}}) as b:
        b.mkdir("srv")
        b.mkdir("c")
        p = b.server(b.path("srv"), "--request-timeout", "4000", binary=server)
        target = "%s:%d" % p.addr
        for n in range(3):
            content = r.randbytes(r.choice(SIZES))
            chunks = r.choice((1, 1, 3))
            q = subprocess.Popen([b.bins[client], "send", *map(str, opts(r, client)), "-r", "pipe%d" % n, target, "/dev/stdin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=b.path("c"))
            b.procs.append(q)
            try:
                k = len(content) // chunks + 1
                for i in range(chunks):
                    q.stdin.write(content[i * k:(i + 1) * k])
                    q.stdin.flush()
                    if chunks > 1:
                        time.sleep(0.05)
            except BrokenPipeError:
                pass
            try:
                out, _ = q.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                q.kill()
                out, _ = q.communicate()
            got = b.read("srv/pipe%d" % n)
            s.note("%s send /dev/stdin of %d bytes to %s -> %s" % (client, len(content), server, q.returncode))
            s.check(q.returncode == 0 and got == content, "%s: sending %d bytes from a pipe ended with status %s, the server %s has %s bytes: %s" % (
                client, len(content), q.returncode, server, got and len(got), out[-300:]))
            # without a local path the file lands in the current directory
            name = r.choice(("sub/plain%d", "plain%d")) % n
            b.write("srv/" + name, content)
            rc, out, _ = b.client("receive", *opts(r, client), r.choice((target, "localhost:%d" % p.port)), name, binary=client, cwd=b.path("c"), timeout=60)
            got = b.read("c/" + os.path.basename(name))
            s.check(rc == 0 and got == content, "%s: receiving %r without a local path ended with status %s and %s bytes in the current directory: %s" % (client, name, rc, got and len(got), out[-300:]))
            # to a pipe
            q = subprocess.run([b.bins[client], "receive", "--local-path", "/dev/stdout", target, name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60, cwd=b.path("c"))
            s.check(q.returncode == 0 and q.stdout == content, "%s: receiving %r to /dev/stdout ended with status %s and %d of %d bytes" % (client, name, q.returncode, len(q.stdout), len(content)))
            # without a remote path the base name is used
            b.write("c/up%d" % n, content)
            rc, out, _ = b.client("send", target, b.path("c/up%d" % n), binary=client, timeout=60)
            s.check(rc == 0 and b.read("srv/up%d" % n) == content, "%s: sending without a remote path ended with status %s: %s" % (client, rc, out[-300:]))
            s.res.count("transfers", 4)
            s.res.case("pipes %s %s %d" % (client, server, len(content)))
        watch_server(s, b, p)


# --- C23: the stored form, through the command line -----------------------------------------------------------------
def at_rest(s):
    r = s.r
    server, sender, receiver = r.choice(ALL), r.choice(ENC), r.choice(ENC)
    with Bench({n: s.bins[n] for n in {server, sender, receiver}}) as b:
        b.mkdir("srv")
        b.mkdir("c")
        p = b.server(b.path("srv"), "--request-timeout", "4000", binary=server)
        target = "%s:%d" % p.addr
        key = Key(r).private
        if r.random() < 0.3:
            # a key as the help text describes it: 32 chars
            key = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(32))
        if r.random() < 0.3:
            b.write("c/keyfile", key.encode() + b"\n")
            given = b.path("c/keyfile") if len(key) == 44 else key
        else:
            given = key
        o1, o2 = opts(r, sender), opts(r, receiver)
        # the chunks of the stored form are blocks of the transfer: both must use the same block size and level
        level = r.choice(("none", "none", "optional-protocol", "optional-data"))
        same = r.random() < 0.9
        if same:
            o2 = [x for i, x in enumerate(o2) if x != "--block-size" and (i == 0 or o2[i - 1] != "--block-size")]
            o2 += o1[o1.index("--block-size"):o1.index("--block-size") + 2] if "--block-size" in o1 else []
        o1 += ["--encryption-level", level]
        o2 += ["--encryption-level", level]
        block = next((int(o1[i + 1]) for i, x in enumerate(o1) if x == "--block-size"), 1425)
        size = r.choice(SIZES + (block - 1, block, block + 1, 2 * block, block - 16, 3 * block + 7, block * 5))
        content = r.randbytes(size)
        b.write("c/src", content)
        rc, out, _ = b.client("send", *o1, "--encryption-key", given, "-r", "x", target, b.path("c/src"), binary=sender)
        stored = b.read("srv/x") or b""
        s.note("%s stored %d bytes as %d on %s with %s: %s" % (sender, size, len(stored), server, o1, rc))
        if not s.check(rc == 0, "sending %d bytes with an encryption key failed: %s" % (size, out[-300:])):
            return
        for i in range(0, max(0, size - 12), 7):
            if content[i:i + 12] in stored:
                s.fail("the stored form holds the plain bytes at %d" % i)
                break
        s.check(len(stored) >= size + 16, "the stored form of %d bytes has only %d" % (size, len(stored)))

        def fetch(name, k=None):
            rc, out, _ = b.client("receive", *o2, "--encryption-key", k or given, "--local-path", b.path("c", name), target, name, binary=receiver)
            return rc, b.read("c/" + name), out

        rc, got, out = fetch("x")
        if not same and rc != 0:
            s.check(says_why(out) and content.startswith(got or b""), "reading with another block size stored wrong content or gave no message: %s" % out[-300:])
            s.res.count("other_block_size_refused")
            return
        s.check(rc == 0 and got == content, "the stored form of %d bytes (sent with %s) is read (with %s) as %s bytes, status %s: %s" % (size, o1, o2, got and len(got), rc, out[-300:]))
        s.res.count("round_trips")
        s.res.case("round %s %s %s %d %s %s" % (sender, server, receiver, size, o1, o2))
        head = 2 + 19
        for n in range(4 if s.tier != "thorough" else 10):
            kind = r.choice(("flip", "flip", "flip-head", "flip-tail", "cut", "cut", "cut-block", "append", "swap", "drop", "double", "empty", "other-key"))
            t = bytearray(stored)
            chunk = int.from_bytes(stored[:2], "big")
            unit = chunk + 16 if chunk else 1
            k = None
            if kind.startswith("flip"):
                i = r.randrange(len(t)) if kind == "flip" else r.randrange(min(head, len(t))) if kind == "flip-head" else len(t) - 1 - r.randrange(min(16, len(t)))
                t[i] ^= 1 << r.randrange(8)
            elif kind == "cut":
                t = t[:r.randrange(1, len(t))]
            elif kind == "cut-block":
                t = t[:len(t) - (len(t) - head) % (unit or 1) or None] if unit else t
            elif kind == "append":
                t += r.randbytes(r.choice((1, 16, 100, 2000)))
            elif kind == "swap" and len(t) > head + 3 * block:
                i, j = head, head + block
                t[i:i + block], t[j:j + block] = t[j:j + block], t[i:i + block]
            elif kind == "drop" and len(t) > head + 2 * block:
                i = head + r.randrange((len(t) - head) // block) * block
                del t[i:i + block]
            elif kind == "double" and len(t) > head + block:
                t[head:head] = t[head:head + block]
            elif kind == "empty":
                t = bytearray()
            elif kind == "other-key":
                k = Key(r).private
            if bytes(t) == stored and k is None:
                continue
            b.write("srv/t%d" % n, bytes(t))
            rc, got, out = fetch("t%d" % n, k)
            s.note("%s of the stored form (%d -> %d bytes): status %s, %s bytes" % (kind, len(stored), len(t), rc, got and len(got)))
            if rc == 0:
                # a changed size header may not matter; the content then is the original one
                s.check(got == content and kind == "flip-head" or got == content and kind == "flip", "%s of the stored form (%d -> %d bytes): exit status 0 with %s bytes" % (kind, len(stored), len(t), got and len(got)))
            else:
                s.check(says_why(out) and not panicked(out), "%s of the stored form: status %s: %s" % (kind, rc, out[-300:]))
                s.check(content.startswith(got or b""), "%s of the stored form: wrong content was stored" % kind)
            s.res.count("tampered")
            s.res.case("tamper %s %s %d" % (kind, receiver, size))
        watch_server(s, b, p)


# --- C24: keys through the command line -----------------------------------------------------------------------------
def key_files(s):
    r = s.r
    server, client = r.choice(ENC), r.choice(ENC)
    with Bench({n: s.bins[n] for n in {server, client}}) as b:
        b.mkdir("srv")
        b.mkdir("c")
        sk, ck, others = Key(r), Key(r), [Key(r) for _ in range(4)]

        def private(k, name):
            """as value or as file"""
            if r.random() < 0.5:
                return k.private
            ending = r.choice(("", "\n", "\r\n", "  \n", "\n# comment\n"))
            b.write("c/" + name, (k.private + ending).encode())
            return b.path("c", name)

        listed = r.random() < 0.6
        lines = [k.public for k in others]
        if listed:
            lines.insert(r.randrange(len(lines) + 1), ck.public)
        text = []
        for l in lines:
            if r.random() < 0.4:
                text.append(r.choice(("# comment", "#" + ck.public, "# " + ck.public, "")))
            text.append(l + r.choice(("", "", " ")) if False else l)
        b.write("c/auth", ("\n".join(text) + r.choice(("", "\n"))).encode())
        p = b.server(b.path("srv"), "--request-timeout", "3000", "--private-key", private(sk, "sk"), "--authorized-keys", b.path("c/auth"), binary=server)
        target = "%s:%d" % p.addr
        content = r.randbytes(r.choice((0, 10, 3000)))
        b.write("srv/y", content)
        # known hosts: this endpoint and ones which look like it
        port = p.port
        own = target
        near = ["127.0.0.1:%d" % (port // 10), "127.0.0.1:%d0" % port, "127.0.0.1", "27.0.0.1:%d" % port, "1127.0.0.1:%d" % port, "127.0.0.11:%d" % port, "localhost:%d" % port, "127.0.0.1:%d" % (port + 1)]
        r.shuffle(near)
        hosts = ["%s %s" % (h, r.choice(others).public) for h in near]
        state = r.choice(("right", "wrong", "none"))
        if state != "none":
            hosts.insert(r.randrange(len(hosts) + 1), "%s %s" % (own, sk.public if state == "right" else others[0].public))
        b.write("c/hosts", ("\n".join(hosts) + "\n").encode())
        level = "protocol"
        args = ["--encryption-level", level, "--private-key", private(ck, "ck"), "--known-hosts", b.path("c/hosts"), "--request-timeout", "1500"]
        up = r.random() < 0.5
        b.write("c/src", content)
        if up:
            rc, out, _ = b.client("send", *args, "-r", "x", target, b.path("c/src"), binary=client)
            got = b.read("srv/x")
        else:
            rc, out, _ = b.client("receive", *args, "--local-path", b.path("c/x"), target, "y", binary=client)
            got = b.read("c/x")
        # an unknown host cannot be greeted with a fully encrypted request, which a server with a key list requires
        good = listed and state == "right"
        s.note("%s -> %s listed %s hosts %s: %s" % (client, server, listed, state, rc))
        who = "%s %s, key %s, known hosts %s" % (client, "send" if up else "receive", "listed" if listed else "not listed", state)
        if good:
            s.check(rc == 0 and got == content, "%s: failed with %s: %s" % (who, rc, out[-300:]))
        else:
            s.check(rc not in (0, None), "%s: ended with status %s" % (who, rc))
            s.check(not got, "%s: content was transferred" % who)
        s.check(not panicked(out), "%s: panic: %s" % (who, out[-300:]))
        watch_server(s, b, p)
        s.res.case("%s %s %s %s %s %s" % (client, server, listed, state, up, tuple(near)))
        s.res.count("identities_tried")
        b.stop(p)

        # first contact: the key of the server is written down, and enforced from then on
        p = b.server(b.path("srv"), "--request-timeout", "3000", "--private-key", sk.private, binary=server)
        target = "%s:%d" % p.addr
        before = "\n".join(h for h in hosts if not h.startswith(target + " ")) + "\n"
        b.write("c/hosts2", before.encode())
        args = ["--encryption-level", "protocol", "--private-key", ck.private, "--known-hosts", b.path("c/hosts2"), "--request-timeout", "1500"]
        for n in range(2):
            rc, out, _ = b.client("receive", *args, "--local-path", b.path("c/z%d" % n), target, "y", binary=client)
            s.check(rc == 0 and b.read("c/z%d" % n) == content, "contact %d: status %s: %s" % (n, rc, out[-300:]))
            after = b.read("c/hosts2").decode()
            s.check(after.startswith(before), "contact %d changed other hosts: %r" % (n, after[-200:]))
            new = [l for l in after[len(before):].split("\n") if l]
            s.check(new == ["%s %s" % (target, sk.public)], "after contact %d the known hosts have %r, the server is %r" % (n, new, "%s %s" % (target, sk.public)))
        b.stop(p)
        # another server takes its place
        for _ in range(3):
            try:
                q = b.run(server, "server", "--request-timeout", "3000", "--private-key", others[0].private, target, b.path("srv"))
                time.sleep(0.4)
                break
            except OSError:
                time.sleep(0.2)
        rc, out, _ = b.client("receive", *args, "--local-path", b.path("c/w"), target, "y", binary=client)
        s.check(rc not in (0, None) and not b.read("c/w"), "a server with another key was accepted: status %s" % rc)
        s.res.count("first_contacts")
        s.res.case("first %s %s %d" % (client, server, len(content)))
        b.stop(q)

        # files which are no key files
        bad = r.choice(("dir", "garbage", "short", "empty", "binary"))
        path = b.path("c/bad")
        if bad == "dir":
            b.mkdir("c/bad")
        else:
            b.write("c/bad", {"garbage": b"not a key at all\n", "short": sk.private[:20].encode() + b"\n", "empty": b"", "binary": r.randbytes(300)}[bad])
        option = r.choice(("--private-key", "--authorized-keys"))
        if option == "--authorized-keys" and bad in ("empty", "binary"):
            # no keys in it; lines which are no text are passed over
            return
        q = b.run(server, "server", option, path, "127.0.0.1:%d" % b.free_port(), b.path("srv"))
        try:
            rc = q.wait(10)
        except Exception:
            rc = None
        out = b.log(q)
        s.note("server %s %s: %s %s" % (option, bad, rc, out[-150:]))
        s.check(rc not in (0, None) and not panicked(out), "a server with %s given a file (%s) which is no key file: status %s %s" % (option, bad, rc, out[-300:]))
        s.res.count("bad_key_files")
        s.res.case("bad %s %s %s" % (server, option, bad))
        if rc is None:
            b.stop(q)


def parts():
    return {
        "C31": [scenarios("flavour-pairs", pair, 96, 800), scenarios("failures", failing, 120, 900, workers=12), scenarios("pipes-and-defaults", pipes, 16, 120)],
        "C23": scenarios("stored-form-through-the-command-line", at_rest, 80, 800, flavours=ALL),
        "C24": scenarios("keys-through-the-command-line", key_files, 48, 400, flavours=ENC),
    }
