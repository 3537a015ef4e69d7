"""Build the harness crate against /repo's current working tree and produce LLVM IR (and the native library for replay)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = sorted(os.path.join(d, f) for d, dn, fn in os.walk(root) if "/target" not in d for f in fn)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def llvm_dis(tc):
    home = os.environ.get("RUSTUP_HOME") or os.path.expanduser("~/.rustup")
    return os.path.join(home, "toolchains", tc, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis")


def build(kind="core"):
    """kind: core | avx512 | resize.  -> directory with core.ll and lib.so"""
    crate = {"core": "core", "avx512": "core", "resize": "resize"}[kind]
    hd = os.path.join(VERIF, "harness", crate)
    tc = NIGHTLY if kind == "avx512" else STABLE
    key = tree_hash([REPO + "/src", REPO + "/Cargo.toml", os.path.join(VERIF, "harness"), os.path.join(VERIF, "stubs"), os.path.abspath(__file__)])
    out = os.path.join(BUILD, f"{kind}-{key}")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-{kind}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out + "/ok"):
            return out
        t = time.time()
        target = os.path.join(BUILD, "target-" + kind)
        for p in glob.glob(target + "/release/.fingerprint/ezk-image-*") + glob.glob(target + "/release/.fingerprint/vp*"):
            shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(target + "/release/build/ezk-image*") + glob.glob(target + "/release/build/vp*"):
            shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(target + "/release/**/*.bc", recursive=True) + glob.glob(target + "/release/**/libvp*.so", recursive=True):
            os.remove(p)
        env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=tc, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        cmd = ["cargo", "rustc", "--release", "--offline", "--lib"]
        if kind == "avx512":
            cmd += ["--features", "unstable"]
        cmd += ["--", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        r = subprocess.run(cmd, cwd=hd, env=env, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        bcs = [p for p in glob.glob(target + "/release/**/vp*rcgu.bc", recursive=True) if ".no-opt." not in p and ".lto." not in p]
        sos = [p for p in glob.glob(target + "/release/**/libvp*.so", recursive=True) if "/deps/" in p or "/out/" in p]
        if len(bcs) != 1 or len(sos) != 1:
            raise BuildError(f"unexpected build products {bcs} {sos}")
        for p in glob.glob(os.path.join(BUILD, f"{kind}-*")):
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(out)
        subprocess.run([llvm_dis(tc), bcs[0], "-o", out + "/core.ll"], check=True)
        shutil.copy(sos[0], out + "/lib.so")
        for p in glob.glob(target + "/release/**/*.bc", recursive=True):
            os.remove(p)
        with open(out + "/ok", "w") as f:
            f.write(f"{time.time() - t:.1f}")
    return out
