"""Builds the harness from /repo's working tree, in one of several flavours."""

import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")

BASE_FLAGS = "--cfg scc_vhook --cap-lints=warn"
TRIPLE = "x86_64-unknown-linux-gnu"

STABLE = "1.92.0"
NIGHTLY = "nightly"

FLAVOURS = {
    # name: toolchain, RUSTFLAGS, cargo arguments, where the binary is
    "native": (STABLE, BASE_FLAGS, ["build", "--release"], "release/scc-verif"),
    "asan": (
        NIGHTLY,
        BASE_FLAGS + " -Zsanitizer=address -Cforce-frame-pointers=yes",
        ["build", "--release", "--target", TRIPLE],
        TRIPLE + "/release/scc-verif",
    ),
    # Interpreted; the command to run is made by `miri_command`.
    "miri": (NIGHTLY, BASE_FLAGS + " -Awarnings", ["miri", "run", "-q"], None),
}

# Memory that is only reachable through the garbage collector is no leak; pointers are tagged.
MIRI_FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"


def miri_command(args):
    return ["cargo", "miri", "run", "-q", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--", *args]


def miri_env(seed, flags=""):
    toolchain, rustflags, _, _ = FLAVOURS["miri"]
    e = env(toolchain, rustflags, os.path.join(TARGET, "miri"))
    e.pop("RUSTC_WRAPPER", None)
    e["MIRIFLAGS"] = f"{MIRI_FLAGS} -Zmiri-seed={seed} {flags}".strip()
    return e


def env(toolchain, flags, target):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = flags
    e["CARGO_TARGET_DIR"] = target
    return e


def tree_hash():
    """Content of everything that goes into the binaries."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for extra in ("build.rs",):
        p = os.path.join(REPO, extra)
        if os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def forget_stale(target, digest, packages=("scc-", "scc_verif-", "scc-verif-", "libscc")):
    """Cargo goes by modification times: make it rebuild whenever the content changed."""
    stamp = os.path.join(target, "verif-stamp")
    try:
        with open(stamp) as fh:
            if fh.read() == digest:
                return
    except OSError:
        pass
    for fp in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
        for d in os.listdir(fp):
            if d.startswith(packages):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as fh:
        fh.write("")


def mark(target, digest):
    with open(os.path.join(target, "verif-stamp"), "w") as fh:
        fh.write(digest)


class Broken(Exception):
    pass


def build(flavour):
    toolchain, flags, args, where = FLAVOURS[flavour]
    target = os.path.join(TARGET, flavour)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = tree_hash()
        forget_stale(target, digest)
        cmd, e = ["cargo", *args, "--offline", "--locked"], env(toolchain, flags, target)
        if flavour == "miri":
            cmd, e = miri_command(["nothing"]), miri_env(0)
        r = subprocess.run(
            cmd,
            cwd=HARNESS,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if r.returncode != 0:
            raise Broken(f"build of {flavour} failed:\n" + r.stdout[-6000:])
        mark(target, digest)
    return os.path.join(target, where) if where else flavour


if __name__ == "__main__":
    import sys

    for f in sys.argv[1:] or FLAVOURS:
        print(build(f))
