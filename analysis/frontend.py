"""Front end: compiles /repo's current working tree (and emitted modules) with the rustc driver
and loads the dumped, type-checked program."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FASTXDR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "thirdump")
TARGET = os.path.join(BUILD, "target")


class BuildError(Exception):
    def __init__(self, msg, out=""):
        Exception.__init__(self, msg)
        self.out = out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(["rustc", "+nightly", "--print", "sysroot"])
        if r.returncode:
            raise BuildError("nightly toolchain missing: " + r.stderr)
        _sysroot = r.stdout.strip()
    return _sysroot


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "thirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = DRIVER + ".sha"
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    r = run(["rustc", "+nightly", "-O", src, "-o", DRIVER])
    if r.returncode:
        raise BuildError("driver does not build", r.stderr)
    with open(stamp, "w") as f:
        f.write(h)


def env(out):
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["THIR_OUT"] = out
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_dump(manifest, out, names, extra=(), targets=("--lib",)):
    """cargo check with the dumping driver; returns (ok, stderr)"""
    os.makedirs(out, exist_ok=True)
    for n in names:
        for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", n + "-*")) + [os.path.join(TARGET, "debug", "build", n)]:
            shutil.rmtree(d, ignore_errors=True)
        for f in glob.glob(os.path.join(out, n.replace("-", "_") + "-*.json")):
            os.remove(f)
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", *targets, "--manifest-path", manifest, "--target-dir", TARGET, *extra]
    r = run(cmd, env=env(out))
    return r.returncode == 0, r.stderr


_repo = None


def repo_program():
    """facts of fastxdr's lib and bin"""
    global _repo
    from thir import Program
    if _repo is None:
        with Lock():
            ensure_driver()
            out = os.path.join(BUILD, "facts")
            okk, err = cargo_dump(os.path.join(REPO, "Cargo.toml"), out, ["fastxdr"], targets=("--lib", "--bins"))
            if not okk:
                raise BuildError("/repo does not compile", err)
            lib = os.path.join(out, "fastxdr-lib.json")
            bins = sorted(glob.glob(os.path.join(out, "fastxdr-bin*.json")))
            if not os.path.exists(lib):
                raise BuildError("no facts for /repo's library")
            _repo = (Program([lib]), [Program([b]) for b in bins])
    return _repo


def module_program(name, source, deps_text="", extra_files=None, allow_fail=False):
    """type-check Rust source as a library crate depending on /repo's fastxdr; returns
    (Program or None, stderr)"""
    from thir import Program
    with Lock():
        ensure_driver()
        d = os.path.join(BUILD, "crates", name)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2018"\n\n[dependencies]\nfastxdr = { path = "%s" }\nthiserror = "2"\nbytes = "1"\n\n[workspace]\n' % (name, REPO))
        lock = os.path.join(REPO, "Cargo.lock")
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(source)
        for k, v in (extra_files or {}).items():
            with open(os.path.join(d, "src", k), "w") as f:
                f.write(v)
        if not os.path.exists(os.path.join(d, "Cargo.lock")) and os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        out = os.path.join(BUILD, "facts")
        okk, err = cargo_dump(os.path.join(d, "Cargo.toml"), out, [name])
        j = os.path.join(out, name + "-lib.json")
        if not okk or not os.path.exists(j):
            return None, err
        return Program([j]), err
