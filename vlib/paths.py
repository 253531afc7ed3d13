"""C16, C17, C30: names, overwriting and listings of the real server on a real file system."""
import os
import random
import threading

from . import net
from .e2e import scenarios, watch_server
from .net import ERROR, OACK, ACK, RRQ, WRQ, Bench

# the tree lies this deep, so that no chain of parent components leaves the scratch directory
DEPTH = 12


class Tree:
    def __init__(self, s, b, absent=False):
        self.s, self.b, self.r = s, b, s.r
        self.base = "/".join(["t"] + ["d%d" % i for i in range(DEPTH)])
        self.top = b.mkdir(self.base)
        self.srv = os.path.join(self.top, "srv")
        self.tokens = 0
        self.put("secret.txt")
        self.put("outside/o.txt")
        self.put("outside/sub/x.txt")
        self.put("srv-evil/e.txt")
        self.put("srv2/plain.txt")
        self.put("srvplain.txt")
        self.put("d/secret.txt")
        if absent:
            return
        self.put("srv/plain.txt")
        self.put("srv/sub/a.txt")
        self.put("srv/sub/deep/b.txt")
        self.put("srv/sp ace.txt")
        self.put("srv/üñï-ćode.txt")
        self.put("srv/.hidden")
        self.put("srv/sub/...")
        self.put("srv/back\\slash.txt")
        self.put("srv/%2e%2e")
        b.mkdir(self.base, "srv", "empty")
        for link, to in (("link_file", "../secret.txt"), ("link_out", "../outside"), ("link_up", ".."), ("link_in", "sub"), ("link_in_file", "plain.txt"),
                         ("dangling_out", "../made-by-link"), ("dangling_out_dir", "../made-dir/sub"), ("dangling_in", "made-inside"), ("loop", "loop"),
                         ("link_abs", os.path.join(self.top, "outside")), ("link_abs_file", os.path.join(self.top, "secret.txt")),
                         ("sub/link_out2", "../../outside/sub"), ("link_evil", "../srv-evil"), ("link_chain", "link_out"), ("link_dot", "sub/../..")):
            p = os.path.join(self.srv, link)
            os.symlink(to, p)
            b.own_one(p)

    def put(self, name):
        self.tokens += 1
        n = self.r.choice((1, 40, 511, 512, 513, 900))
        content = (b"<%s:%d>" % (name.encode(), self.r.getrandbits(60)) + self.r.randbytes(n))
        self.b.write(os.path.join(self.base, name), content)

    def outside(self):
        """everything but the served directory"""
        return net.snapshot(os.path.join(self.b.dir, "t"), skip=(self.srv,))

    def inside(self):
        return net.snapshot(self.srv)


SPECIAL = ("..", ".", "", "...", " ..", ".. ", "..\\", "%2e%2e", "..;", "~", "\u2025", "．．")


def odd_name(r, t):
    """a name which may try anything; never resolves above the scratch tree"""
    leaf = ["plain.txt", "secret.txt", "outside/o.txt", "outside", "srv-evil/e.txt", "srv-evil", "srvplain.txt", "srv2/plain.txt", "sub/a.txt", "o.txt", "x.txt", "new-%d" % r.randrange(100),
            "newdir%d/f" % r.randrange(20), "", ".", "..", "srv/plain.txt", "link_file", "link_out/o.txt", "link_out/new-%d" % r.randrange(100), "link_up/secret.txt", "link_up/new-%d" % r.randrange(50),
            "link_abs/o.txt", "link_abs_file", "dangling_out", "dangling_out_dir/f", "dangling_in", "dangling_out_dir", "loop", "loop/x", "sub/link_out2/x.txt", "sub/link_out2/n%d" % r.randrange(50),
            "link_evil/e.txt", "link_evil/n%d" % r.randrange(50), "link_chain/o.txt", "link_chain/n%d" % r.randrange(9), "link_dot/secret.txt", "link_dot/n%d" % r.randrange(9),
            "link_in/../plain.txt", "link_out/../secret.txt", "link_out/../new%d" % r.randrange(9), "plain.txt/x", "plain.txt/../../secret.txt", "empty", "sub", "empty/../../secret.txt",
            "link_out/newdir%d/f" % r.randrange(9), "link_up/made%d/deep/f" % r.randrange(9), "made-%d/../../made-up-%d/f" % (r.randrange(9), r.randrange(9))]
    k = r.randrange(12)
    if k == 0:
        return t.top + "/" + r.choice(leaf)
    if k == 1:
        return t.srv + "/" + r.choice(leaf)
    if k == 2:
        return "/" * r.randrange(1, 4) + r.choice(leaf)
    if k == 3:
        return "../" * r.randrange(1, 6) + r.choice(leaf)
    if k == 4:
        return r.choice(("sub", "empty", "sub/deep", "link_in", "nodir", "plain.txt", "link_out")) + "/.." * r.randrange(1, 4) + "/" + r.choice(leaf)
    if k == 5:
        n = r.choice((149, 150, 151, 200, 255, 256, 300, 480))
        c = r.choice(("a", "é", "漢", "😀"))
        long = c * (n // len(c.encode()))
        return r.choice(("", "../", "sub/", "link_out/")) + long + r.choice(("", "/x", "/../secret.txt"))
    if k == 6:
        return "/".join(r.choice(SPECIAL + ("sub", "link_out", "secret.txt", "outside", "o.txt")) for _ in range(r.randrange(1, 6)))
    if k == 7:
        return r.choice(("..\\secret.txt", "..%2fsecret.txt", "%2e%2e/secret.txt", "sub\\..\\..\\secret.txt", "./../secret.txt", "././../secret.txt", "..//secret.txt", ".../secret.txt",
                         ". ./secret.txt", " ../secret.txt", ".. /secret.txt", "sub/ ../ ../secret.txt", "\t../secret.txt", "..\r/secret.txt", "\u00a0../secret.txt", "file:///" + t.top + "/secret.txt", "~/secret.txt"))
    return r.choice(leaf)


def clean_reads(t):
    """names of ordinary files reached through ordinary directories"""
    out = []
    for p, (kind, content) in t.inside().items():
        if kind == "file":
            n = os.path.relpath(p, t.srv)
            if all(c.strip() not in ("", ".", "..") for c in n.split("/")) and len(n.encode()) <= 150:
                out.append((n, content))
    return out


def stems(log_line):
    return log_line


def serve(s, b, t, binary, *args):
    style = s.r.choice(("absolute", "relative", "dot", "slash", "link", "up"))
    d, cwd = t.srv, t.top
    if style == "relative":
        d = "srv"
    elif style == "dot":
        d = "./srv"
    elif style == "slash":
        d = t.srv + "/"
    elif style == "up":
        d = "../top-%s/srv" % "x" if False else "../%s/srv" % os.path.basename(t.top)
    elif style == "link" and os.path.isdir(t.srv):
        p = os.path.join(t.top, "served")
        os.symlink("srv", p)
        b.own_one(p)
        d = p
    s.note("server %s %s directory %s" % (binary, " ".join(args), style))
    return b.server(d, *args, binary=binary, cwd=cwd)


def c16(s):
    r = s.r
    binary = r.choice(("tftp", "tftp-stack", "tftp-alloc", "tftp-stack-encryption") if s.tier == "thorough" else ("tftp", "tftp", "tftp-stack"))
    absent = r.random() < 0.15
    overwrite = r.random() < 0.6
    listing = r.choice((None, None, "dir", "list.txt"))
    depth = r.choice((10, 10, 30, 2))
    with Bench({binary: s.bins[binary]}) as b:
        t = Tree(s, b, absent)
        args = ["--request-timeout", "3000"]
        args += ["-a"] if overwrite else []
        args += ["--directory-list", listing] if listing else []
        args += ["--max-directory-depth", str(depth)] if depth != 10 else []
        p = serve(s, b, t, binary, *args)
        before = t.outside()
        foreign = {c for k, c in before.values() if k == "file"}
        hidden = {n for n in ("o.txt", "x.txt", "e.txt", "secret.txt", "outside", "srv-evil", "srvplain.txt", "srv2")}
        steps = 90 if s.tier != "thorough" else 250
        for step in range(steps):
            kind = r.choice(("read", "write", "list", "clean-read", "clean-write"))
            sk = b.sock()
            opts = []
            if r.random() < 0.4:
                opts.append(("blksize", r.choice((512, 1024, 600))))
            if r.random() < 0.3:
                opts.append(("tsize", 0 if kind != "write" else 100))
            inside = t.inside() if os.path.isdir(t.srv) else {}
            if kind in ("read", "list"):
                name = odd_name(r, t)
                if kind == "list" and listing:
                    name = name.rstrip("/") + "/" + listing
                o = net.download(sk, p.addr, name, opts, timeout=0.7, tries=2)
                s.note("%s %r -> %r" % (kind, name, o))
                files = {c for k, c in inside.values() if k == "file"}
                if o.content:
                    if listing and (name.rstrip("/").rsplit("/", 1)[-1].strip() == listing or listing in name):
                        lines = o.content.decode("utf-8", "replace").split("\n")
                        names = {l.rstrip("/").rsplit("/", 1)[-1] for l in lines}
                        real = {os.path.basename(q) for q in inside}
                        leaked = [n for n in names if n in hidden and n not in real]
                        s.check(not leaked, "the listing %r shows %r, which is outside of the served directory" % (name, leaked))
                        s.res.count("listings")
                    else:
                        whole = o.content in files if o.ok else any(c.startswith(o.content) for c in files)
                        s.check(whole, "reading %r delivered %r, which is not the content of a file of the served directory%s" % (
                            name, o.content[:60], ": it is an outside file" if any(c.startswith(o.content[:20]) for c in foreign) else ""))
                        s.res.count("odd_names_served")
                elif o.kind == "error":
                    s.res.count("odd_names_refused")
                s.res.case("%s %s" % (kind, name))
            elif kind == "write":
                name = odd_name(r, t)
                content = b"[up:%d]" % r.getrandbits(60) + r.randbytes(r.choice((0, 5, 490, 512, 700)))
                o = net.upload(sk, p.addr, name, content, opts, timeout=0.7, tries=2)
                s.note("write %r -> %r" % (name, o))
                after = t.inside() if os.path.isdir(t.srv) else {}
                changed = [d for d in net.differences(inside, after) if d[2] == "file"]
                s.check(len(changed) <= 1, "writing %r changed several files: %r" % (name, changed))
                if o.ok:
                    s.check(len(changed) == 1 and after[changed[0][1]][1] == content, "writing %r was accepted; files changed: %r" % (name, changed))
                    s.res.count("odd_names_written")
                elif o.kind == "error":
                    s.check(not any(d[0] == "changed" for d in changed), "refused write of %r changed %r" % (name, changed))
                    s.res.count("odd_names_refused")
                s.res.case("write %s" % name)
            elif kind == "clean-read":
                names = clean_reads(t) if inside else []
                names = [(n, c) for n, c in names if n.count("/") <= depth and not (listing and (n == listing or n.endswith("/" + listing)))]
                if names:
                    name, content = r.choice(names)
                    shown = r.choice((name, name, "/" + name, name.replace("/", "//")))
                    o = net.download(sk, p.addr, shown, opts, timeout=3)
                    s.note("clean read %r -> %r" % (shown, o))
                    s.check(o.ok and o.content == content, "the file %r inside of the served directory was not delivered: %r" % (shown, o))
                    s.res.count("inside_reads")
                    s.res.case("clean-read %s" % shown, False)
            else:
                where = r.choice(("", "", "sub/", "sub/deep/", "fresh%d/" % r.randrange(5), "fresh/er/%d/" % r.randrange(5)))
                name = where + r.choice(("n%d", "ñ %d.txt", "%d..x", "..%dx", "-%d", "%d" + "y" * 60)).replace("%d", str(r.getrandbits(40)))
                if name.count("/") > depth or listing and name.endswith(listing):
                    continue
                content = b"[in:%d]" % r.getrandbits(60) + r.randbytes(r.choice((0, 5, 490, 512, 700)))
                o = net.upload(sk, p.addr, name, content, opts, timeout=3)
                s.note("clean write %r -> %r" % (name, o))
                got = None
                try:
                    with open(os.path.join(t.srv, name), "rb") as f:
                        got = f.read()
                except OSError:
                    pass
                s.check(o.ok and got == content, "the upload of %r inside of the served directory gave %r and stored %r" % (name, o, got and got[:40]))
                s.res.count("inside_writes")
                s.res.case("clean-write %s" % name, False)
            b.release(sk)
            out = t.outside()
            if out != before:
                s.fail("%s %r changed files outside of the served directory: %r" % (kind, name, net.differences(before, out)[:5]))
            if s.failed:
                break
        watch_server(s, b, p)


def alias(r, name):
    parts = name.split("/")
    k = r.randrange(9)
    if k == 0:
        return "/" + name
    if k == 1:
        return "./" + name
    if k == 2:
        return "//" + "//".join(parts)
    if k == 3:
        return "../" + name
    if k == 4:
        return name + "/"
    if k == 5:
        return "/./" + "/./".join(parts)
    if k == 6 and len(parts) > 1:
        return "/../".join(parts)
    return name


def c17(s):
    r = s.r
    binary = r.choice(("tftp", "tftp", "tftp-stack") if s.tier != "thorough" else ("tftp", "tftp-stack", "tftp-alloc", "tftp-stack-encryption"))
    with Bench({binary: s.bins[binary]}) as b:
        t = Tree(s, b)
        b.write(t.base + "/srv/void", b"")
        b.write(t.base + "/srv/sub/void", b"")
        b.write(t.base + "/srv/big", r.randbytes(9000))
        mode = r.choice(("keep", "keep", "race", "race", "replace"))
        args = ["--request-timeout", "3000"] + (["-a"] if mode == "replace" else [])
        p = serve(s, b, t, binary, *args)
        if mode == "keep":
            before = t.inside()
            names = ["plain.txt", "sub/a.txt", "void", "sub/void", "big", "sub/deep/b.txt", "sp ace.txt", "üñï-ćode.txt", ".hidden", "link_in_file", "link_in/a.txt", "empty", "sub", "back\\slash.txt", "loop", "dangling_in"]
            for _ in range(40):
                name = r.choice(names)
                shown = alias(r, name)
                sk = b.sock()
                opts = r.choice(([], [], [("tsize", r.choice((0, 5, 100)))], [("blksize", 1024), ("windowsize", 4)]))
                content = b"new" + r.randbytes(r.choice((0, 100, 600)))
                o = net.upload(sk, p.addr, shown, content, opts, timeout=3)
                s.note("write %r -> %r" % (shown, o))
                if name != "dangling_in":
                    s.check(o.kind == "error", "the upload to the existing %r was not refused with an error: %r" % (shown, o))
                # data nevertheless
                sk.sendto(net.data(1, b"forced"), p.addr)
                after = t.inside()
                diff = [d for d in net.differences(before, after) if d[1] in before]
                s.check(not diff, "the upload to the existing %r changed %r" % (shown, diff))
                s.res.count("refused_uploads")
                s.res.case("keep %s %s %s" % (binary, shown, opts))
                b.release(sk)
                if s.failed:
                    break
            # a name which does not exist is accepted, and refused from then on
            for n in range(4):
                name = "fresh-%d" % n
                content = r.randbytes(r.choice((0, 1, 512, 1500)))
                sk = b.sock()
                o = net.upload(sk, p.addr, name, content, timeout=3)
                s.check(o.ok and b.read(t.base + "/srv/" + name) == content, "the upload of the new %r gave %r" % (name, o))
                sk2 = b.sock()
                o = net.upload(sk2, p.addr, name, b"other", timeout=3)
                s.check(o.kind == "error" and b.read(t.base + "/srv/" + name) == content, "the second upload of %r was not refused: %r" % (name, o))
                s.res.count("second_uploads")
                s.res.case("second %s %d" % (binary, len(content)))
                b.release(sk)
                b.release(sk2)
        elif mode == "race":
            for n in range(12):
                race(s, b, t, p, n)
                if s.failed:
                    break
        else:
            for n in range(25):
                name = r.choice(("big", "plain.txt", "void", "sub/a.txt", "again", "link_in_file", "sub/new"))
                content = r.randbytes(r.choice((0, 1, 511, 512, 513, 3000, 12000)))
                via = "raw"
                sk = b.sock()
                old = b.read(t.base + "/srv/" + name)
                o = net.upload(sk, p.addr, alias(r, name), content, r.choice(([], [("blksize", 1400)], [("windowsize", 4), ("tsize", len(content))])), timeout=3)
                got = b.read(t.base + "/srv/" + name)
                s.note("replace %r of %s by %d bytes -> %r" % (name, old and len(old), len(content), o))
                s.check(o.ok and got == content, "replacing %r (%s bytes) by %d bytes gave %r and left %s bytes%s" % (
                    name, old and len(old), len(content), o, got and len(got), ", the new ones first" if got and got.startswith(content) else ""))
                s.res.count("replaced_files")
                s.res.case("replace %s %s %s %d" % (binary, name, old and len(old), len(content)))
                b.release(sk)
                if s.failed:
                    break
        watch_server(s, b, p)


def race(s, b, t, p, n):
    """several clients ask for the same new name at once"""
    r = s.r
    name = r.choice(("race-%d", "sub/race-%d", "newdir-%d/f")).replace("%d", str(n))
    k = r.randrange(2, 9)
    contents = [(b"%d:" % i) * r.choice((1, 200, 256, 400, 2000)) for i in range(k)]
    outcomes = [None] * k
    socks = [b.sock() for _ in range(k)]
    gate = threading.Barrier(k)
    late = [r.random() * r.choice((0, 0, 0.002, 0.02)) for _ in range(k)]
    shown = [alias(r, name) for _ in range(k)]

    def client(i):
        gate.wait()
        if late[i]:
            threading.Event().wait(late[i])
        outcomes[i] = net.upload(socks[i], p.addr, shown[i], contents[i], timeout=4)

    ts = [threading.Thread(target=client, args=(i,)) for i in range(k)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    got = b.read(t.base + "/srv/" + name)
    won = [i for i in range(k) if outcomes[i].kind != "error" and outcomes[i].kind != "silent"]
    lost = [i for i in range(k) if outcomes[i].kind == "error"]
    s.note("race of %d for %s: %r" % (k, name, outcomes))
    s.check(len(won) <= 1, "%d uploads of the same new name %r were accepted" % (len(won), name))
    s.check(len(won) + len(lost) == k, "some uploads racing for %r got no answer: %r" % (name, outcomes))
    if len(won) == 1:
        s.check(got == contents[won[0]], "the upload of %r which was accepted sent %d bytes %r, stored are %s bytes %r" % (
            name, len(contents[won[0]]), contents[won[0]][:8], got and len(got), got and got[:8]))
    else:
        s.check(not lost or len(lost) < k, "all uploads of the new name %r were refused: %r" % (name, outcomes))
    s.res.count("races")
    s.res.count("racing_uploads", k)
    s.res.case("race %s %d %s" % (name.split("-")[0], k, "".join("w" if i in won else "l" for i in range(k))))
    for x in socks:
        b.release(x)


def entry_name(r, n):
    k = r.randrange(10)
    base = r.choice(("a", "file", "x y", " lead", "trail ", "ü", "漢字", "😀", "-dash", "tab\tname", "q'uote", "a\\b", "%41", "..x", "...", ".dot", "semi;", "a" * 100, "é" * 60, "*", "#", "new\u2028line", "cr\rx"))
    return base if k == 0 else "%s%d" % (base, n)


def c30(s):
    r = s.r
    binary = r.choice(("tftp", "tftp", "tftp-stack") if s.tier != "thorough" else ("tftp", "tftp-stack", "tftp-alloc", "tftp-stack-encryption"))
    stack = "stack" in binary
    enabled = r.random() < 0.85
    list_name = r.choice(("dir", "dir", "ls", "index.txt", ".list", "liste-ü"))
    with Bench({binary: s.bins[binary]}) as b:
        t = Tree(s, b)
        # directories of many shapes
        shapes = {"": None}
        for d, n in (("none", 0), ("one", 1), ("few", r.randrange(2, 8)), ("some", r.randrange(8, 120)), ("many", r.choice((400, 1000, 3000 if s.tier == "thorough" else 1500))), ("sub/inner", r.randrange(0, 9)),
                     ("a b/ü/c", r.randrange(1, 9)), ("exact", 0)):
            b.mkdir(t.base, "srv", d)
            for i in range(n):
                e = entry_name(r, i)
                p = os.path.join(t.srv, d, e)
                if os.path.lexists(p) or len(e.encode()) > 240:
                    continue
                k = r.randrange(12)
                if k == 0:
                    os.mkdir(p)
                elif k == 1:
                    os.symlink(r.choice(("..", "nowhere", "/etc", e, "plain.txt", "../plain.txt")), p)
                elif k == 2 and r.random() < 0.3:
                    os.mkfifo(p)
                else:
                    open(p, "wb").close()
            shapes[d] = n
        # a listing of exactly a multiple of the block size: one entry whose line fills it
        for fill in range(r.choice((1, 2, 4))):
            line = 512 // 4
            for k in range(4):
                n = "%d%d" % (fill, k)
                n += "e" * (line - len("exact/") - len(n) - 1)
                open(os.path.join(t.srv, "exact", n), "wb").close()
        b.own(t.srv)
        os.symlink("../outside", os.path.join(t.srv, "one", "out")) if not os.path.lexists(os.path.join(t.srv, "one", "out")) else None
        args = ["--request-timeout", "3000"]
        if enabled:
            args += ["--directory-list", list_name]
        if r.random() < 0.4:
            args += ["--prefer-seek"]
        p = serve(s, b, t, binary, *args)

        def expected(d):
            full = os.path.join(t.srv, d)
            real = os.path.realpath(full)
            out = []
            for e in os.listdir(real):
                q = os.path.join(real, e)
                rel = os.path.relpath(q, os.path.realpath(t.srv))
                out.append((rel, os.path.isdir(q) and not os.path.islink(q), os.path.islink(q)))
            return out

        def judge(d, content, how):
            exp = expected(d)
            if exp:
                s.check(content.endswith(b"\n"), "%s: the listing does not end with a complete line: %r" % (how, content[-50:]))
            try:
                lines = content.decode().split("\n")[:-1]
            except UnicodeDecodeError:
                return s.fail("%s: the listing is not text: %r" % (how, content[:80]))
            allowed = {}
            for rel, is_dir, is_link in exp:
                forms = {rel + "/"} if is_dir else {rel}
                if is_link:
                    # a link to a directory may be marked or not
                    if os.path.isdir(os.path.join(t.srv, rel)):
                        forms.add(rel + "/")
                for f in forms:
                    allowed[f] = rel
            seen = [allowed.get(l) for l in lines]
            wrong = [l for l in lines if l not in allowed]
            missing = sorted({x[0] for x in exp} - set(seen))
            s.check(not wrong and not missing and len(lines) == len(exp), "%s: the listing of %r (%d entries) has %d lines; wrong %r, missing %r" % (how, d, len(exp), len(lines), wrong[:4], missing[:4]))
            s.res.count("listings")
            s.res.count("listed_entries", len(exp))
            s.res.count("max_entries", len(exp))

        dirs = list(shapes) + ["empty", "link_in", "a b", "sub", "sub/deep"]
        for step in range(24):
            d = r.choice(dirs)
            name = (d + "/" if d else "") + list_name
            if stack and len(name.encode()) > 150:
                continue
            opts = []
            if r.random() < 0.6:
                opts.append(("blksize", r.choice((512, 513, 600, 1024, 1400, 1425))))
            if r.random() < 0.5:
                opts.append(("windowsize", r.choice((1, 2, 4, 8, 16))))
            if r.random() < 0.5:
                opts.append(("tsize", 0))
            sk = b.sock()
            if enabled:
                if r.random() < 0.25:
                    local = b.path("got-%d" % step)
                    b.mkdir("local")
                    local = b.path("local", "got-%d" % step)
                    extra = ["--block-size", r.choice((512, 1000, 1425)), "--window-size", r.choice((1, 3, 8))]
                    rc, out, _ = b.client("receive", *extra, "--local-path", local, "%s:%d" % p.addr, name, binary=binary)
                    s.note("client list %r -> %s" % (name, rc))
                    if s.check(rc == 0, "the client could not receive the listing %r: %s" % (name, out[-300:])):
                        judge(d, b.read("local/got-%d" % step), "client, %r" % (extra,))
                else:
                    o = net.download(sk, p.addr, r.choice((name, "/" + name)), opts, timeout=3)
                    s.note("list %r %r -> %r" % (name, opts, o))
                    if s.check(o.ok, "the listing of %r failed: %r" % (d, o)):
                        judge(d, o.content, "options %r" % (opts,))
                        if "tsize" in o.options and len(o.content) > 0:
                            s.check(int(o.options["tsize"]) == len(o.content), "the listing of %r has %d bytes, announced %s" % (d, len(o.content), o.options["tsize"]))
                s.res.case("%s %s %s %s" % (binary, d, len(expected(d)), opts))
            else:
                o = net.download(sk, p.addr, name, opts, timeout=3)
                s.note("list (disabled) %r -> %r" % (name, o))
                s.check(o.kind == "error" and not o.content, "listing is disabled, but %r gave %r" % (name, o))
                s.res.count("refused_listings")
                s.res.case("%s disabled %s" % (binary, d))
            # directories outside, things which are no directory
            bad = r.choice(("link_out", "link_up", "link_abs", "link_evil", "sub/link_out2", "link_chain", "link_dot", "one/out", "plain.txt", "nowhere", "link_file", "loop"))
            o = net.download(b.sock(), p.addr, bad + "/" + list_name, opts, timeout=3)
            s.note("list %r -> %r" % (bad, o))
            s.check(o.kind == "error" and not o.content, "the listing of %r (outside or no directory) gave %r: %r" % (bad, o, o.content[:80]))
            s.res.count("refused_listings")
            # names which merely look like the listing
            if step < 4:
                like = ("x" + list_name, list_name + "x", "sub/my" + list_name, list_name + "/x")[step]
                o = net.download(b.sock(), p.addr, like, opts, timeout=3)
                s.note("like a list %r -> %r" % (like, o))
                s.check(o.kind == "error" and not o.content, "%r is not the listing name, but gave %r: %r" % (like, o, o.content[:80]))
                if step < 3:
                    b.write(t.base + "/srv/" + like, b"content of " + like.encode())
                    o = net.download(b.sock(), p.addr, like, opts, timeout=3)
                    s.check(o.content == b"content of " + like.encode(), "the file %r gave %r: %r" % (like, o, o.content[:80]))
            # parent components and the directory itself as a file
            up = r.choice(("../", "../../", "/../", "sub/../../", "../outside/", "../srv-evil/", "./../d/"))
            o = net.download(b.sock(), p.addr, up + list_name, opts, timeout=3)
            if o.content and enabled:
                rel = [l for l in o.content.decode("utf-8", "replace").split("\n") if l]
                bad_lines = [l for l in rel if not os.path.lexists(os.path.join(t.srv, l.rstrip("/")))]
                s.check(not bad_lines, "the listing %r shows what is not in the served directory: %r" % (up + list_name, bad_lines[:5]))
            elif not enabled:
                s.check(not o.content, "listing is disabled, but %r gave %r" % (up + list_name, o.content[:80]))
            o = net.download(b.sock(), p.addr, r.choice(("sub", "one", ".", "", "/", "few/")), opts, timeout=3)
            s.check(not o.content, "reading a directory gave %r" % o.content[:80])
            b.release(sk)
            for x in list(b.socks):
                b.release(x)
            if s.failed:
                break
        watch_server(s, b, p)


def parts():
    return {
        "C16": scenarios("names-on-a-real-file-system", c16, 110, 1000),
        "C17": scenarios("overwriting-on-a-real-file-system", c17, 200, 2000),
        "C30": scenarios("listings-of-a-real-file-system", c30, 90, 900),
    }
