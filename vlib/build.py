"""Builds of the harness and of the real binaries from /repo's working tree, one directory per flavour."""
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")

# name -> features of the harness crate
FLAVOURS = {
    "heap": "alloc,enc,seek",
    "stack-enc": "enc,seek",
    "threads": "alloc,enc,seek,mt",
    "stack": "seek",
}
# the four binaries of the repository's own release script
BINARIES = {
    "tftp": None,
    "tftp-stack-encryption": "encryption,seek",
    "tftp-alloc": "alloc,seek",
    "tftp-stack": "seek",
}


TARGET = "x86_64-unknown-linux-gnu"
# instrumented builds: with the standard library, its and the containers' own checks of unsafe preconditions switched on
SANITIZERS = {"asan": "address", "msan": "memory", "tsan": "thread"}
MIRI_RUSTFLAGS = '--cfg curve25519_dalek_backend="serial" --cfg chacha20_force_soft --cfg poly1305_force_soft'


def sanitizer(kind):
    """toolchain, rustflags, more arguments of cargo"""
    flags = "-Zsanitizer=%s -Cdebug-assertions=on -Cforce-frame-pointers=yes" % SANITIZERS[kind]
    if kind == "msan":
        flags += " -Zsanitizer-memory-track-origins"
    return "nightly", flags, ("-Zbuild-std", "--target", TARGET)


class BuildError(Exception):
    pass


def env(toolchain="1.85.1"):
    e = dict(os.environ)
    home = e.get("HOME", "/root")
    e["PATH"] = home + "/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    return e


def source_hash():
    """content of everything of /repo that a build reads"""
    h = hashlib.sha256()
    for base in ("Cargo.toml", "Cargo.lock", "src", "std-binary"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
            h.update(b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, cwd, e, log, timeout=1500):
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode


def _fresh(target):
    """cargo trusts modification times; force a rebuild when the content of /repo differs from the last build's"""
    stamp = os.path.join(target, "source.sha256")
    want = source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have is not None and have != want:
        for d, ds, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if x.startswith("tftp-"):
                        shutil.rmtree(os.path.join(d, x))
                ds[:] = []
            elif os.path.basename(d) in ("deps", "build", "incremental", "examples"):
                ds[:] = []
    return stamp, want


def harness(flavour, variant=None):
    """path of the harness binary of a flavour, instrumented if a variant is given"""
    name = flavour if not variant else "%s-%s" % (variant, flavour)
    tdir = os.path.join(BUILD, name)
    with Lock(name):
        toolchain, rustflags, extra = sanitizer(variant) if variant else ("1.85.1", None, ())
        e = env(toolchain)
        if rustflags:
            e["RUSTFLAGS"] = rustflags
        cwd = os.path.join(VERIF, "harness")
        stamp, want = _fresh(tdir)
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--features", FLAVOURS[flavour], "--target-dir", tdir, *extra]
        log = os.path.join(BUILD, name + ".log")
        if _run(cmd, cwd, e, log) != 0:
            raise BuildError("the harness does not build against /repo (%s): %s" % (name, tail(log)))
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(want)
        return os.path.join(tdir, TARGET if variant else "", "release", "tftp-verif")


def miri(flavour):
    """compiles the harness for the interpreter -> (command prefix, environment, directory)"""
    name = "miri-" + flavour
    tdir = os.path.join(BUILD, name)
    with Lock(name):
        e = env("nightly")
        e["RUSTFLAGS"] = MIRI_RUSTFLAGS
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        e["MIRI_SYSROOT"] = ""
        e.pop("MIRI_SYSROOT")
        cwd = os.path.join(VERIF, "harness")
        stamp, want = _fresh(tdir)
        cmd = ["cargo", "miri", "run", "--offline", "--locked", "--features", FLAVOURS[flavour], "--target-dir", tdir, "--"]
        log = os.path.join(BUILD, name + ".log")
        if _run(cmd + ["control", "--prop", "nothing"], cwd, e, log) != 0:
            raise BuildError("the harness does not run in Miri (%s): %s" % (name, tail(log)))
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(want)
        return cmd, e, cwd


def blocking(variant=None):
    """the stress of the reader which follows a file -> (command prefix, environment, directory)"""
    name = "blocking" if not variant else variant + "-blocking"
    tdir = os.path.join(BUILD, name)
    with Lock(name):
        cwd = os.path.join(VERIF, "blocking")
        extra, rustflags, toolchain = (), None, "1.85.1"
        if variant == "miri":
            toolchain, rustflags = "nightly", MIRI_RUSTFLAGS
        elif variant:
            toolchain, rustflags, extra = sanitizer(variant)
        e = env(toolchain)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.2"
        if rustflags:
            e["RUSTFLAGS"] = rustflags
        stamp, want = _fresh(tdir)
        log = os.path.join(BUILD, name + ".log")
        if variant == "miri":
            cmd = ["cargo", "miri", "run", "--offline", "--locked", "--target-dir", tdir, "--"]
            rc = _run(cmd + ["stress", "1", "0"], cwd, e, log)
        else:
            rc = _run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", tdir, *extra], cwd, e, log)
            cmd = [os.path.join(tdir, TARGET if variant else "", "release", "tftp-blocking")]
        if rc != 0:
            raise BuildError("the reader of growing files does not build on its own (%s): %s" % (name, tail(log)))
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(want)
        return cmd, e, cwd


def binary(name, variant=None):
    """path of one of the four real command-line binaries, instrumented if a variant is given"""
    dname = "bin-" + name if not variant else "%s-bin-%s" % (variant, name)
    tdir = os.path.join(BUILD, dname)
    with Lock(dname):
        toolchain, rustflags, extra = sanitizer(variant) if variant else ("1.85.1", None, ())
        e = env(toolchain)
        if rustflags:
            e["RUSTFLAGS"] = rustflags
        stamp, want = _fresh(tdir)
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "-p", "tftp-std-binary", "--target-dir", tdir, *extra]
        # the metrics crate does not build with the toolchain of the sanitizers
        features = BINARIES[name] or (variant and "alloc,encryption,multi_thread,seek,sync")
        if features:
            cmd += ["--no-default-features", "--features", features]
        log = os.path.join(BUILD, dname + ".log")
        if _run(cmd, REPO, e, log) != 0:
            raise BuildError("the binary %s does not build: %s" % (dname, tail(log)))
        with open(stamp, "w") as f:
            f.write(want)
        return os.path.join(tdir, TARGET if variant else "", "release", "tftp-dus")


def tail(path, n=30):
    try:
        with open(path, errors="replace") as f:
            lines = f.read().splitlines()
        err = [i for i, l in enumerate(lines) if l.startswith("error")]
        if err:
            return "\n".join(lines[err[0]:err[0] + n])
        return "\n".join(lines[-n:])
    except OSError:
        return ""
