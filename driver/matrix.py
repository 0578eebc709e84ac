"""The same cases executed in every combination of features, in several build profiles and on
interpreted targets (C14), and under Miri's checks (C15)."""
import glob
import itertools
import json
import os
import re
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import build
from .build import CheckError

CURVES = ("x25519", "k256", "p256", "p384", "p521")


def subsets(l):
    for r in range(len(l) + 1):
        yield from itertools.combinations(l, r)


COMBINATIONS = [(c, s) for c, fs in (("ml-kem", ("std", "deterministic", "zeroize")), ("x-wing", ("getrandom", "zeroize")),
                                     ("dhkem", ("x25519", "ecdh", "k256", "p256", "p384", "p521", "zeroize"))) for s in subsets(fs)]


def result():
    return {"sections": [], "failures": [], "notes": [], "wall": 0.0}


class Section:
    def __init__(self, name, rule):
        self.d = {"name": name, "rule": rule, "items": 0, "states": 0, "transitions": 0, "traces": 0, "distinct": 0,
                  "distinct_capped": False, "complete": True, "wall": 0.0, "samples": []}
        self.failures = {}
        self.lock = threading.Lock()
        self.t0 = time.time()

    def item(self, operations=1, traces=1, sample=None):
        with self.lock:
            self.d["items"] += 1
            self.d["states"] += 1
            self.d["transitions"] += operations
            self.d["traces"] += traces
            if sample and len(self.d["samples"]) < 3:
                self.d["samples"].append(sample)

    def fail(self, index, key, detail):
        with self.lock:
            f = self.failures.get(key)
            if f:
                f["count"] += 1
                if index < f["index"]:
                    f.update(index=index, detail=detail)
                return
            self.failures[key] = {"section": self.d["name"], "index": index, "key": key, "detail": detail, "count": 1}

    def into(self, r, complete):
        self.d["complete"] = complete
        self.d["wall"] = round(time.time() - self.t0, 2)
        r["sections"].append(self.d)
        r["failures"] += list(self.failures.values())


class Part:
    deep = False
    def build_key(self):
        return (type(self).__name__, self.name)

    def build(self, tier="quick"):
        """Warms the build directories."""
        self.run(tier, None)
        return None, []


def in_workers(jobs):
    """jobs: {worker name: [callables]}; the callables of a worker run in order."""
    errors = []

    def work(fs):
        for f in fs:
            try:
                f()
            except CheckError as e:
                errors.append(e)
            except subprocess.TimeoutExpired as e:
                errors.append(CheckError(f"timed out: {e.cmd[:6]}"))

    with ThreadPoolExecutor(len(jobs)) as ex:
        list(ex.map(work, jobs.values()))
    if errors:
        raise errors[0]


def sh(args, cwd, env, timeout):
    return subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


class FeatureBuilds(Part):
    """cargo check of every combination of features, each crate on its own."""
    name = "feature sets"
    SECTION = "every feature set builds"

    def run(self, tier, replay):
        r = result()
        s = Section(self.SECTION, f"cargo check of all {len(COMBINATIONS)} combinations of features: 8 of ml-kem, 4 of x-wing, 128 of dhkem")
        jobs = {}

        def one(i, worker):
            crate, feats = COMBINATIONS[i]
            target = os.path.join(build.TARGET, worker)
            with build.locked(target):
                build.freshen(target)
                p = build.cargo(["check", "--offline", "--locked", "--quiet", "-p", crate, "--no-default-features", "--features", ",".join(feats)],
                                build.REPO, build.env_for(target))
            label = f"{crate}[{','.join(feats)}]"
            s.item(1, 0, label)
            if p.returncode:
                if "error: the lock file" in p.stdout or "failed to select a version" in p.stdout or "no matching package" in p.stdout:
                    raise CheckError("cargo could not resolve the dependencies: " + p.stdout[:300])
                s.fail(i, label, f"{label} does not build: " + build.errors_of(p.stdout).replace("\n", " | ")[:600])

        for i, (crate, feats) in enumerate(COMBINATIONS):
            if replay and i != replay["index"]:
                continue
            w = "combo-" + (crate if crate != "dhkem" else "dhkem-" + ("p384" if "p384" in feats else "") + ("x25519" if "x25519" in feats else ""))
            if crate == "x-wing":
                w = "combo-ml-kem"
            jobs.setdefault(w, []).append(lambda i=i, w=w: one(i, w))
        in_workers(jobs)
        s.into(r, not replay)
        return r


class BareMetal(Part):
    """cargo check for a target without operating system and without allocator, of every combination
    of features that asks for neither."""
    name = "without operating system"
    TARGET = "thumbv7em-none-eabi"
    ALL = [(c, f) for c, f in COMBINATIONS if "std" not in f and "getrandom" not in f and not ("ecdh" in f and not set(f) & set(CURVES[1:]))]

    def run(self, tier, replay):
        r = result()
        s = Section("every feature set builds without an operating system",
                    f"cargo check for {self.TARGET} of all {len(self.ALL)} combinations of features without std and getrandom (dhkem: and without ecdh alone, which builds nowhere: see C14)")
        jobs = {}

        def one(i, worker):
            crate, feats = self.ALL[i]
            target = os.path.join(build.TARGET, worker)
            label = f"{crate}[{','.join(feats)}]"

            def check(libraries):
                with build.locked(target):
                    build.freshen(target)
                    p = build.cargo(["check", "-Zbuild-std=" + libraries, "--target", self.TARGET, "--offline", "--locked", "--quiet", "-p", crate, "--no-default-features",
                                     "--features", ",".join(feats)], build.REPO, build.env_for(target), toolchain="+nightly")
                if p.returncode and any(x in p.stdout for x in ("error: the lock file", "failed to select a version", "no matching package", "is not installed")):
                    raise CheckError("cargo could not resolve the dependencies: " + p.stdout[:300])
                return p.stdout if p.returncode else None

            error = check("core")
            s.item(1, 0, label)
            key = label
            if error and "can't find crate for `alloc`" in error and error.count("error[") == 1 and "could not compile `zeroize`" in error:
                # the dependency's own need, reported as such; what else is there shows with the library it wants
                s.fail(i, label + " zeroize needs alloc", f"{label} does not build for {self.TARGET}: its zeroize dependency is asked for its alloc feature")
                error = check("core,alloc")
                key += " with alloc"
            if error:
                s.fail(i, key, f"{key} does not build for {self.TARGET}: " + build.errors_of(error).replace("\n", " | ")[:600])

        for i, (crate, feats) in enumerate(self.ALL):
            if replay and i != replay["index"]:
                continue
            w = "bare-" + ("ml-kem" if crate != "dhkem" else "dhkem-" + ("p384" if "p384" in feats else "") + ("x25519" if "x25519" in feats else ""))
            jobs.setdefault(w, []).append(lambda i=i, w=w: one(i, w))
        in_workers(jobs)
        s.into(r, not replay)
        return r


def make_cases(families, size):
    ok, path = build.build_bin("cases", "plain")
    if not ok:
        raise CheckError("cases does not build: " + path)
    try:
        p = subprocess.run([path, families, size], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    finally:
        os.unlink(path)
    if p.returncode:
        raise CheckError("cases: " + p.stderr.decode()[-300:])
    out = os.path.join(build.TARGET, f"cases-{families}-{size}-{os.getpid()}-{time.monotonic_ns()}")
    with open(out, "wb") as f:
        f.write(p.stdout)
    return out


def read_output(s, base, label, out, rc, killed_ok=False):
    """Takes in the output of one mini process."""
    done = re.search(r"^DONE (\d+) cases (\d+) operations (\d+) bad", out, re.M)
    infos = re.findall(r"^PANICINFO (.*)$", out, re.M)
    for m in re.finditer(r"^FAIL (\d+) (\S+) (.*)$", out, re.M):
        s.fail(base + int(m.group(1)), m.group(2), f"{label}: {m.group(3)}" + (f" ({infos[0]})" if m.group(2) == "panic" and infos else ""))
    return done


class Runs(Part):
    """mini built in several ways, each executing all cases of its crates."""

    def configurations(self, tier):
        """[(worker, label, profile, features, case families, compiler flags)]"""
        raise NotImplementedError

    def run(self, tier, replay):
        r = result()
        size = tier
        confs = self.configurations(tier)
        s = Section(self.section, self.rule)
        files = {f: make_cases(f, size) for f in sorted({c[4] for c in confs})}
        jobs = {}

        def one(i):
            worker, label, profile, feats, family, rustflags = confs[i]
            target = os.path.join(build.TARGET, "mini-" + worker)
            args = ["build", "--offline", "--quiet", "--profile", profile, "--no-default-features", "--features", ",".join(feats)]
            with build.locked(target):
                build.freshen(target)
                p = build.cargo(args, os.path.join(build.HARNESS, "mini"), build.env_for(target, rustflags))
                if p.returncode:
                    s.item(0, 0, label)
                    s.fail(i * 1000000, "build", f"{label} does not build with the interfaces its features promise: " + build.errors_of(p.stdout).replace("\n", " | ")[:600])
                    return
                exe = os.path.join(target, "debug" if profile == "dev" else profile, "mini")
                cmd = [exe, files[family]]
                if replay:
                    cmd += ["only", str(replay["index"] % 1000000)]
                q = sh(cmd, "/", dict(os.environ, RUST_BACKTRACE="0"), 600 if tier == "quick" else 7200)
            done = read_output(s, i * 1000000, label, q.stdout, q.returncode)
            if not done:
                if q.returncode in (-4, -6, -7, -8, -11):
                    s.item(0, 0, label)
                    s.fail(i * 1000000, "crash", f"{label}: died with signal {-q.returncode}: {q.stdout[-200:]!r}")
                    return
                raise CheckError(f"{label}: no result, status {q.returncode}: {q.stdout[-300:]}")
            s.item(int(done.group(2)), int(done.group(1)), f"{label}: {done.group(0)}")

        for i, c in enumerate(confs):
            if replay and replay["index"] // 1000000 != i:
                continue
            jobs.setdefault(c[0], []).append(lambda i=i: one(i))
        try:
            in_workers(jobs)
        finally:
            for f in files.values():
                os.unlink(f)
        s.d["states"] = s.d["traces"] + s.d["items"]
        s.into(r, not replay)
        return r


class FeatureRuns(Runs):
    name = "feature runs"
    section = "every feature set gives the same results"
    rule = ("ml-kem in all 8 combinations, x-wing in all 4, dhkem with each curve alone, all pairs with X25519 and all curves, each with and without zeroize: "
            "every case through every interface the combination offers, against the model")

    def configurations(self, tier):
        v = []
        for i, f in enumerate(subsets(("std", "deterministic", "zeroize"))):
            v.append((f"ml{i % 2}", f"ml-kem[{','.join(f)}]", "release", ("mlkem",) + f, "ml", None))
        for f in subsets(("getrandom", "zeroize")):
            v.append(("xw", f"x-wing[{','.join(f)}]", "release", ("xwing",) + f, "xw", None))
        sets = [(c,) for c in CURVES] + [CURVES]
        if tier == "thorough":
            sets = [x for x in subsets(CURVES) if x]
        for i, cs in enumerate(sets):
            for z in ((), ("zeroize",)):
                v.append((f"dh{len(z)}{i % 2}", f"dhkem[{','.join(cs + z)}]", "release", cs + z, "dh", None))
        return v


class Profiles(Runs):
    name = "profiles"
    section = "every build profile gives the same results"
    rule = "the same cases in the dev profile (no optimisation, overflow checks), release, size-optimised release, release with overflow checks and debug assertions, and release with all instructions of this processor"

    def configurations(self, tier):
        v = []
        for p in ("dev", "small", "checked", "release"):
            v.append((f"{p}", f"ml-kem {p}", p, ("mlkem", "std", "deterministic", "zeroize"), "ml", None))
            v.append((f"{p}", f"x-wing and dhkem {p}", p, ("xwing", "zeroize") + CURVES, "xw,dh", None))
        # with whatever instructions this processor has beyond the common ones
        v.append(("native", "all crates, release for this processor", "release", ("mlkem", "std", "deterministic", "zeroize", "xwing") + CURVES, "ml,xw,dh", "-C target-cpu=native"))
        return v


class Wasm(Part):
    """Cases executed on wasm32-unknown-unknown, a 32-bit target, by the installed node."""
    name = "wasm32"
    TARGET = "wasm32-unknown-unknown"
    FEATURES = (("mlkem", "std", "deterministic", "zeroize", "xwing") + CURVES, ("mlkem", "xwing") + CURVES)

    def sources(self):
        """A source of crates made of links: those of the standard library and those of our lock file."""
        out = os.path.join(build.TARGET, "wasm-sources")
        lock = open(os.path.join(build.HARNESS, "mini", "Cargo.lock")).read()
        with build.locked(out):
            sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], "/", dict(os.environ), 60).stdout.strip()
            vendor = os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor")
            if not os.path.isdir(vendor):
                raise CheckError("no sources of the standard library's dependencies")
            for d in os.listdir(vendor):
                if not os.path.lexists(os.path.join(out, d)):
                    os.symlink(os.path.join(vendor, d), os.path.join(out, d))
            home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
            for n, v, c in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "[^"]+"\nchecksum = "([^"]+)"', lock):
                src = glob.glob(os.path.join(home, "registry/src/*", f"{n}-{v}"))
                d = os.path.join(out, f"{n}-{v}")
                if not src or os.path.islink(d) or os.path.exists(os.path.join(d, ".cargo-checksum.json")):
                    continue
                os.makedirs(d, exist_ok=True)
                for e in os.listdir(src[0]):
                    if not e.startswith(".cargo") and not os.path.lexists(os.path.join(d, e)):
                        os.symlink(os.path.join(src[0], e), os.path.join(d, e))
                with open(os.path.join(d, ".cargo-checksum.json"), "w") as f:
                    json.dump({"files": {}, "package": c}, f)
        return out

    def run(self, tier, replay):
        r = result()
        s = Section(self.TARGET, "every case of the three crates in builds with overflow checks and debug assertions (thorough: also plain release, and without default features), executed by node; against the model")
        confs = [("checked", self.FEATURES[0])]
        if tier == "thorough":
            confs += [("release", self.FEATURES[0]), ("checked", self.FEATURES[1])]
        src = self.sources()
        files = {f: make_cases(f, tier) for f in ("ml", "xw", "dh")}
        target = os.path.join(build.TARGET, "wasm")
        try:
            for i, (profile, feats) in enumerate(confs):
                label = f"{self.TARGET} {profile} [{','.join(feats)}]"
                with build.locked(target):
                    build.freshen(target)
                    p = build.cargo(["build", "--offline", "--locked", "--quiet", "--config", 'source.crates-io.replace-with="merged"', "--config", f'source.merged.directory="{src}"',
                                     "--profile", profile, "--target", self.TARGET, "-Zbuild-std=std,panic_abort", "--no-default-features", "--features", ",".join(feats)],
                                    os.path.join(build.HARNESS, "mini"), build.env_for(target), toolchain="+nightly")
                    if p.returncode:
                        if any(x in p.stdout for x in ("error: the lock file", "failed to select a version", "no matching package", "is not installed", "failed to download")):
                            raise CheckError(f"{self.TARGET}: " + p.stdout[-500:])
                        s.item(0, 0, label)
                        s.fail(i * 10000000, "build", f"{label} does not build: " + build.errors_of(p.stdout).replace("\n", " | ")[:600])
                        continue
                    exe = os.path.join(target, self.TARGET, profile, "mini.wasm")
                    for j, (fam, cases) in enumerate(files.items()):
                        base = i * 10000000 + j * 1000000
                        if replay and not base <= replay["index"] < base + 1000000:
                            continue
                        only = ["only", str(replay["index"] - base)] if replay else []
                        q = sh(["node", os.path.join(build.HARNESS, "mini", "wasm.mjs"), exe, cases] + only, "/", dict(os.environ), 600 if tier == "quick" else 7200)
                        done = read_output(s, base, f"{label} {fam}", q.stdout, q.returncode)
                        if not done:
                            raise CheckError(f"{label}: no result, status {q.returncode}: {q.stdout[-300:]}")
                        s.item(int(done.group(2)), int(done.group(1)), f"{label} {fam}: {done.group(0)}")
        finally:
            for f in files.values():
                os.unlink(f)
        s.d["states"] = s.d["traces"] + s.d["items"]
        s.into(r, not replay)
        return r


class Interpreted(Part):
    """Cases executed by Miri: on another target, and with or without its checks for undefined behaviour."""

    def __init__(self, name, targets, thorough=()):
        self.name, self.quick, self.thorough = name, list(targets), list(thorough)

    def of(self, tier, replay=None):
        return self.quick + (self.thorough if tier == "thorough" or replay else [])

    def groups(self):
        return [("ml", ("mlkem", "std", "deterministic", "zeroize")), ("ml", ("mlkem",)), ("xw", ("xwing", "zeroize")), ("dh", CURVES + ("zeroize",))]

    def build(self, tier="quick"):
        for t, checks in self.of(tier):
            self.prepare(t)
        return None, []

    def env(self, checks):
        flags = ["-Zmiri-disable-isolation"]
        if not checks:
            flags += ["-Zmiri-disable-validation", "-Zmiri-disable-stacked-borrows"]
        return build.env_for(os.path.join(build.TARGET, "miri", "checked" if checks else "plain"), None,
                             {"MIRIFLAGS": " ".join(flags), "XDG_CACHE_HOME": os.path.join(build.TARGET, "miri", "cache")})

    def command(self, target, feats):
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target", target, "--no-default-features", "--features", ",".join(feats), "--"]

    def prepare(self, target):
        with build.locked(os.path.join(build.TARGET, "miri", "cache")):
            p = sh(["cargo", "+nightly", "miri", "setup", "--offline", "--target", target], "/", self.env(False), 600)
        if p.returncode:
            raise CheckError(f"miri setup for {target}: {p.stdout[-300:]}")

    def run(self, tier, replay):
        r = result()
        mini = os.path.join(build.HARNESS, "mini")
        size = "tiny" if tier == "quick" else "quick"
        files = {f: make_cases(f, size) for f in ("ml", "xw", "dh")}
        counts = {f: sum(1 for _ in open(p)) for f, p in files.items()}
        groups = self.groups()
        try:
            for n, (target, checks) in enumerate(self.of(tier, replay)):
                s = Section(target, f"Miri, {'all checks for undefined behaviour' if checks else 'results only'}, overflow checks on: every operation of the three crates on generated, extreme and malformed inputs")
                if replay and replay["section"] != target:
                    continue
                self.prepare(target)
                jobs = []
                env = self.env(checks)
                lines = {f: open(p).read().splitlines() for f, p in files.items()}
                for g, (fam, feats) in enumerate(groups):
                    with build.locked(env["CARGO_TARGET_DIR"]):
                        build.freshen(env["CARGO_TARGET_DIR"])
                        p = sh(self.command(target, feats) + [files[fam], "only", "99999999"], mini, env, 900)
                    if p.returncode:
                        if "could not compile" in p.stdout:
                            s.item(0, 0)
                            s.fail(g * 1000000, "build", f"{','.join(feats)} does not build for {target}: " + build.errors_of(p.stdout).replace("\n", " | ")[:600])
                            continue
                        raise CheckError(f"miri for {target}: {p.stdout[-500:]}")
                    for c in range(counts[fam]):
                        head = lines[fam][c][:16]
                        # without default features: one set, and only under the checks for undefined behaviour
                        if g == 1 and ((" 512 " not in head or "ml.round" in head) or not checks):
                            continue
                        # the sets differ only in array lengths; x-wing runs the middle one too
                        if tier == "quick" and " 768 " in head and ("ml.gen" not in head and "ml.dec" not in head or checks):
                            continue
                        if tier == "quick" and checks and " 1024 " in head and "ml.round" in head:
                            continue
                        # interpreted P-384 arithmetic takes minutes per operation, and the wrapper is generic in the curve
                        if fam == "dh" and tier == "quick" and " P384 " in lines[fam][c][:16]:
                            continue
                        if not replay or replay["index"] == g * 1000000 + c:
                            jobs.append((g, fam, feats, c))
                # the long ones first
                jobs.sort(key=lambda j: (j[1] == "dh", -len(lines[j[1]][j[3]])))

                def one(job):
                    g, fam, feats, c = job
                    label = f"{target}, {' '.join(lines[fam][c].split(' ')[:2])} [{','.join(feats)}]"
                    t0 = time.time()
                    try:
                        p = sh(self.command(target, feats) + [files[fam], "only", str(c)], mini, env, 850 if tier == "quick" else 7200)
                    except subprocess.TimeoutExpired:
                        raise CheckError(f"{label}: interpretation exceeded the time limit")
                    if os.environ.get("VERIF_TIMES"):
                        print(f"{time.time() - t0:6.1f} s {label}", flush=True)
                    done = read_output(s, g * 1000000, label, p.stdout, p.returncode)
                    s.item(int(done.group(2)) if done else 1, 1, label)
                    if done:
                        return
                    m = re.search(r"^error: (.*)$", p.stdout, re.M)
                    if m and re.search(r"Undefined Behavior|memory leaked|abnormal termination|unsupported", m.group(1)):
                        if "unsupported" in m.group(1):
                            raise CheckError(f"{label}: {m.group(1)}")
                        where = re.findall(r"^\s*--> (\S+)", p.stdout, re.M)[:1] + re.findall(r"at (/repo\S+)", p.stdout)[:1]
                        s.fail(g * 1000000 + c, "undefined-behaviour", f"{label}: {m.group(1)} {' '.join(where)}")
                        return
                    raise CheckError(f"{label}: status {p.returncode}: {p.stdout[-400:]}")

                with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                    list(ex.map(one, jobs))
                s.into(r, not replay)
        finally:
            for f in files.values():
                os.unlink(f)
        return r
