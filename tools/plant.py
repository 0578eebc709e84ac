#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a definition and confirms it in a scratch copy of /repo:

    plant.py DEFS.py [id ...]

DEFS.py defines PLANTS: id -> dict(property, needs, breaks, edits=[(file, old, new)], main=..., deps=..., hooks=bool).
"""
import json
import os
import subprocess
import sys

SEEDED = "/verif/seeded"
W = "/tmp/plant-work"
CARGO = """[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false

[dependencies]
%s

[profile.release]
debug-assertions = %s
overflow-checks = false

[workspace]
"""
DEMO = """#!/bin/bash
# Run with the repository as the working directory: 0 if the property holds here, not 0 if it is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 3
%sCARGO_TARGET_DIR="$w/target" cargo %s --offline -q%s
"""


def sh(cmd, cwd=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    plants = ns["PLANTS"]
    want = sys.argv[2:] or [k for k in plants if not os.path.exists(f"{SEEDED}/{k}/patch.diff")]
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    for k in want:
        p = plants[k]
        sh("git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
        bad = None
        for f, old, new in p["edits"]:
            s = open(f"{W}/{f}").read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                break
            open(f"{W}/{f}", "w").write(s.replace(old, new))
        if bad:
            print(k, "EDIT FAILED", bad)
            continue
        d = f"{SEEDED}/{k}"
        os.makedirs(d, exist_ok=True)
        _, diff = sh("git diff", W)
        open(f"{d}/patch.diff", "w").write(diff)
        deps = p.get("deps", 'ml-kem = { path = "@REPO@/ml-kem", features = ["deterministic"] }\nrand_core = "0.6"')
        open(f"{d}/Cargo.toml.in", "w").write(CARGO % (deps, "true" if p.get("debug") else "false"))
        open(f"{d}/main.rs", "w").write(p["main"].lstrip())
        pre = "export RUSTFLAGS='--cfg kems_verif'\n" if p.get("hooks") else ""
        pre += p.get("pre", "")
        open(f"{d}/demo.sh", "w").write(DEMO % (pre, p.get("cargo", "run --release"), p.get("post", "")))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r1, o1 = sh(f"bash {d}/demo.sh", W)
        rt, ot = sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E '^error|test result|FAILED|panicked'; exit ${PIPESTATUS[0]}".join(["bash -c \"", "\""]).replace("${", "\\${"), W)
        sh("git checkout -q -- .", W)
        r0, o0 = sh(f"bash {d}/demo.sh", W)
        ok = r0 == 0 and r1 != 0 and rt == 0
        print(k, "OK" if ok else "NOT CONFIRMED", f"unpatched={r0} patched={r1} tests={rt}", flush=True)
        print("   ", [l for l in o1.splitlines() if 'panicked' in l or l.startswith(('error', 'a ', 'assertion'))][-3:], flush=True)
        if not ok:
            if r0:
                print(o0[-1500:])
            if rt:
                print(ot[-1500:])


main()
