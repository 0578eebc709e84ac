"""Builds harness crates against /repo's working tree, judging freshness by content."""
import contextlib
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
HOST = "x86_64-unknown-linux-gnu"
CRATES = ("ml-kem", "x-wing", "dhkem")


class CheckError(Exception):
    """The check could not be carried out (never a verdict)."""


def tree_hash():
    h = hashlib.sha256()
    files = []
    for c in CRATES:
        for root, dirs, names in os.walk(os.path.join(REPO, c)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            files += [os.path.join(root, n) for n in names]
    files += [os.path.join(REPO, n) for n in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()


@contextlib.contextmanager
def locked(target):
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def freshen(target):
    """Cargo decides by modification times; force the crates under test to be rebuilt whenever
    their content is not the content this target directory was built from."""
    stamp = os.path.join(target, ".verif-tree")
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        for d in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
            for c in CRATES:
                for x in glob.glob(os.path.join(d, c + "-*")):
                    shutil.rmtree(x, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(want)


def env_for(target, rustflags=None, extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    e.update(extra or {})
    return e


def cargo(args, cwd, env, timeout=800, toolchain=None):
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def errors_of(out):
    lines = out.splitlines()
    keep = [l for i, l in enumerate(lines) if l.startswith("error") or l.lstrip().startswith("--> ")]
    errs = []
    for i, l in enumerate(lines):
        if l.startswith("error"):
            errs += lines[i:i + 4]
    return "\n".join(errs[:24]) or "\n".join(lines[-15:]) or "\n".join(keep)


def build_bin(crate, flavor="plain", rustflags=None, features=(), default_features=True, profile="release",
              extra_env=None, bins=None, asan=False):
    """-> (ok, path of the binary or error text)"""
    target = os.path.join(TARGET, flavor)
    args = ["build", "--offline", "--quiet"]
    args += ["--profile", profile] if profile != "release" else ["--release"]
    if asan:
        args += ["--target", HOST]
        rustflags = " ".join(filter(None, [rustflags, "-Zsanitizer=address"]))
    if features:
        args += ["--features", ",".join(features)]
    if not default_features:
        args += ["--no-default-features"]
    with locked(target):
        freshen(target)
        try:
            p = cargo(args, os.path.join(HARNESS, crate), env_for(target, rustflags, extra_env),
                      toolchain="+nightly" if asan else None)
        except subprocess.TimeoutExpired:
            raise CheckError(f"building {crate} ({flavor}) took too long")
        if p.returncode != 0:
            return False, errors_of(p.stdout)
        # a private copy, so that another flavour's build cannot replace it under a running check
        sub = "debug" if profile == "dev" else profile
        src = os.path.join(target, *([HOST] if asan else []), sub, bins or crate)
        fd, dst = tempfile.mkstemp(prefix=f"{crate}-", dir=target)
        os.close(fd)
        shutil.copy2(src, dst)
        return True, dst


def run_bin(path, args, timeout, extra_env=None, name=""):
    """Runs an explorer; returns its result document. A reproducible death by a fault signal is
    returned as a violation; anything else unexpected raises CheckError."""
    fd, out = tempfile.mkstemp(prefix="result-", dir=TARGET)
    os.close(fd)
    try:
        deaths = []
        for _ in range(2):
            open(out, "w").close()
            try:
                p = subprocess.run([path] + args + ["--out", out], env=dict(os.environ, **(extra_env or {})), timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError(f"{name} exceeded {timeout} s")
            if p.returncode in (0, 1) and os.path.getsize(out):
                with open(out) as f:
                    return json.load(f)
            if -p.returncode in (4, 6, 7, 8, 11):  # ILL ABRT BUS FPE SEGV
                deaths.append(-p.returncode)
                continue
            raise CheckError(f"{name} ended with status {p.returncode}")
        return {
            "sections": [{"name": "process", "rule": "the explorer process survives", "items": 1, "states": 1, "transitions": 1,
                          "traces": 1, "distinct": 1, "distinct_capped": False, "complete": False, "wall": 0, "samples": []}],
            "failures": [{"section": "process", "index": 0, "key": "crash", "count": 2,
                          "detail": f"the code under test killed the process with signals {deaths} in two runs"}],
            "notes": [],
        }
    finally:
        os.unlink(out)
