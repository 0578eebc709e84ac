"""What decides each property."""
import os
import subprocess

from . import build
from .matrix import BareMetal, FeatureBuilds, FeatureRuns, Interpreted, Profiles, Wasm

HOOKS = "--cfg kems_verif"


class Explorer:
    """One run of a harness binary. deep: belongs to the thorough tier only."""

    def __init__(self, crate, args, name=None, hooks=False, features=(), timeout=(800, 6 * 3600), env=None, profile="release",
                 flavor=None, default_features=True, thorough_features=(), asan=False, deep=False):
        self.crate, self.args, self.hooks, self.features = crate, list(args), hooks, tuple(features)
        self.name = name or crate
        self.deep = deep
        self.timeout = timeout
        self.env = env
        self.profile = profile
        self.flavor = flavor
        self.asan = asan
        if asan:
            self.flavor = "asan"
            self.env = dict(env or {}, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")
        self.default_features = default_features
        self.thorough_features = tuple(thorough_features)

    def build_key(self):
        return (self.crate, self.hooks, self.features, self.profile, self.flavor, self.default_features, self.asan)

    def build(self, tier="quick"):
        notes = []
        ok = False
        features = self.features + (self.thorough_features if tier == "thorough" else ())
        kw = dict(features=features, profile=self.profile, default_features=self.default_features)
        if self.asan:
            ok, path = build.build_bin(self.crate, "asan", None, asan=True, **kw)
            if not ok:
                notes.append("no build with the address sanitizer; explored without it: " + path.splitlines()[0])
        elif self.hooks:
            ok, path = build.build_bin(self.crate, self.flavor or "hooks", HOOKS, **kw)
            if not ok:
                notes.append("the hooks do not fit this tree; explored through the public API only: " + path.splitlines()[0])
        if not ok:
            ok, path = build.build_bin(self.crate, "plain" if self.asan else (self.flavor or "") + "plain", None, **kw)
        if not ok:
            raise build.CheckError(f"{self.crate} does not build:\n{path}")
        return path, notes

    def run(self, tier, replay):
        path, notes = self.build(tier)
        try:
            args = self.args + ["--tier", tier]
            if replay:
                args += ["--section", replay["section"], "--index", str(replay["index"])]
            r = build.run_bin(path, args, self.timeout[tier == "thorough"], self.env, self.name)
        finally:
            os.unlink(path)
        r["notes"] += notes
        return r


class ControlFlow(Explorer):
    """An explorer whose workers run under the Valgrind tool of harness/ct/tool."""

    def build(self, tier="quick"):
        out = os.path.join(build.TARGET, "flow")
        src = os.path.join(build.HARNESS, "ct", "tool")
        want = "".join(open(os.path.join(src, f)).read() for f in ("flow.c", "build.sh"))
        stamp = os.path.join(out, "built-from")
        with build.locked(out):
            if not os.path.exists(stamp) or open(stamp).read() != want:
                p = subprocess.run(["bash", os.path.join(src, "build.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise build.CheckError("the Valgrind tool does not build:\n" + p.stdout[-2000:])
                with open(stamp, "w") as f:
                    f.write(want)
        self.env = {"VERIF_FLOW": out}
        return super().build(tier)


MODEL = "the reference model (written from FIPS 203 / FIPS 202 / RFC 7748 in /verif/harness/vlib, sharing no code with the repository) is right; every run first checks it against the published vectors and its own definitions"
BUILD = "x86-64 release build with overflow checks and debug assertions enabled"


def P(rule, parts, *assumptions, together=False):
    """together: the parts, mostly of one thread each, run at the same time."""
    return {"rule": rule, "parts": parts, "assumptions": list(assumptions), "together": together}


PLAN = {
    "C01": P("structured alphabets of seed pairs, each executed on all three parameter sets and compared byte for byte with the model",
             [Explorer("mlk", ["C01"], hooks=False)], MODEL, BUILD),
    "C02": P("structured alphabets of messages, of encapsulation keys (every 12-bit value at every position) and of matrix seeds",
             [Explorer("mlk", ["C02"], hooks=False)], MODEL, BUILD),
    "C03": P("all words of key-handling steps up to a bound; message and seed alphabets; all (secret, u, v) triples through decryption",
             [Explorer("mlk", ["C03"], hooks=True), Explorer("mlk", ["C03"], name="ml-kem with zeroize", hooks=True, features=("zeroize",))], MODEL, BUILD),
    "C04": P("every single-byte substitution of honest ciphertexts, every count of altered bytes, cancelling pairs, every altered byte of the key",
             [Explorer("mlk", ["C04"], hooks=False)], MODEL, BUILD),
    "C05": P("every byte position and value of encoded keys, every 12-bit value at every coefficient",
             [Explorer("mlk", ["C05"], hooks=False)], MODEL, BUILD),
    "C06": P("all pairs (key, key with one byte changed), cancelling pairs, all pairs of a pool",
             [Explorer("mlk", ["C06"], name="ml-kem"), Explorer("xw", ["C06"], name="x-wing", features=("getrandom",))], MODEL, BUILD),
    "C07": P("operand alphabets of field elements at every coefficient position and in all pairs; basis polynomials (bilinearity), structured polynomials, all orders of transform sequences",
             [Explorer("mlk", ["C07"], hooks=True)], MODEL, BUILD),
    "C08": P("XOF output scripts: rejections at every position, in every count and pattern around buffer boundaries",
             [Explorer("mlk", ["C08"], hooks=True)], MODEL, BUILD),
    "C09": P("every byte group of the noise input at every position; every counter assignment of key generation and encryption",
             [Explorer("mlk", ["C09"], hooks=True)], MODEL, BUILD),
    "C10": P("every width, every value, every position",
             [Explorer("mlk", ["C10"], hooks=True)], MODEL, BUILD),
    "C11": P("every generator byte position and value class; a fault at every call of the generator",
             [Explorer("mlk", ["C11"], name="ml-kem"), Explorer("xw", ["C11"], name="x-wing", features=("getrandom",)), Explorer("dh", ["C11"], name="dhkem")], MODEL, BUILD),
    "C12": P("all operation words up to a length, every pair of near-equal inputs in succession, all interleavings of two threads' operations, nested operations at every generator call, a preemption at every access to shared memory",
             [Explorer("mlk", ["C12"], name="ml-kem"), Explorer("mlk", ["C12"], name="ml-kem with zeroize", features=("zeroize",)), Explorer("xw", ["C12"], name="x-wing", features=("getrandom",)), Explorer("dh", ["C12"], name="dhkem"),
              Explorer("pre", ["C12"], name="preemption", features=("deterministic",))], MODEL, BUILD,
             "preemptions are explored at accesses to static variables and to the shared key objects (one processor's view: memory reordering between processors is not modelled); heap memory that two operations share otherwise is not watched", together=True),
    "C15": P("patterned and extreme encodings in all combinations, every 12-bit value throughout, special curve values and boundary scalars, executed under the address sanitizer with overflow checks; one run of every operation under Miri",
             [Explorer("mlk", ["C15"], name="ml-kem", asan=True), Explorer("xw", ["C15"], name="x-wing", features=("getrandom",), asan=True),
              Explorer("dh", ["C15"], name="dhkem", asan=True), Interpreted("miri", [("x86_64-unknown-linux-gnu", True)])], BUILD,
             "undefined behaviour that neither the address sanitizer, the overflow and debug checks, nor Miri can observe is not excluded; Miri executes only the listed cases"),
    "C14": P("every combination of cargo features; a fixed set of cases with the model's results in every runnable combination, in four build profiles, on 32-bit WebAssembly, and interpreted for a 64-bit (thorough: and a 32-bit) big-endian target",
             [FeatureBuilds(), FeatureRuns(), Profiles(), Wasm(), Interpreted("targets", [("s390x-unknown-linux-gnu", False)], [("powerpc-unknown-linux-gnu", False)])], MODEL,
             "targets are executed by Miri, not on hardware; other targets are not explored"),
    "C13": P("every kind of secret-holding object x every listed end of life x all words of operations up to a length x a secret differing in each byte (or each coefficient class); oracle: noninterference of the residue with a reference object that has the same public part",
             [Explorer("zer", ["C13"], name="ml-kem", features=("mlkem",)), Explorer("zer", ["C13"], name="x-wing", features=("xwing",)),
              Explorer("zer", ["C13"], name="dhkem", features=("dh",)), Explorer("zer", ["C13"], name="dhkem with x25519-dalek/zeroize", features=("x25519-zeroize",))],
             "x86-64 release build (opt-level 3, as a user gets it)", "copies the compiler leaves behind when moving an object, and stack temporaries of operations, are outside the property: it speaks of the memory the object occupied when it ended"),
    "C16": P("alphabets of seeds, of both halves of the randomness, of X25519 and ML-KEM key bytes; all triples (seed, message, ephemeral secret) of a pool",
             [Explorer("xw", ["C16"], features=("getrandom",))], MODEL, BUILD),
    "C17": P("every single-byte substitution of an honest ciphertext, counts and cancelling pairs of altered bytes, all special X25519 values, seed alphabet",
             [Explorer("xw", ["C17"], features=("getrandom",))], MODEL, BUILD),
    "C18": P("every value at every byte of keys and ciphertexts over several backgrounds",
             [Explorer("xw", ["C18"], features=("getrandom",))], MODEL, BUILD),
    "C19": P("all pairs of boundary secrets and all (secret, peer) pairs of boundary pools on all five curves",
             [Explorer("dh", ["C19"])], MODEL, BUILD),
    "C20": P("all pairs of values of small wrapped domains, all operation words on recording values",
             [Explorer("dh", ["C20"])], BUILD),
    "C21": P("two (thorough: four) public keys per parameter set: every secret coefficient replaced by boundary values, rejection-seed and message alphabets (fills, every bit, every zero prefix), every ciphertext byte altered; each executed under a binary translator that follows every instruction",
             [ControlFlow("ct", ["C21"])], "x86-64 release build at opt-level 3 without target features, as compiled by the installed toolchain; other compilers and targets are not observed",
             "data-dependent memory addresses are not part of the property (noise sampling looks values up in a small table)"),
    "C22": P("51 parameter sets covering every rank 1..5 with every pair of noise widths and every compression width 1..11 on either side (thorough: all 2420 sets of these ranks and widths, which are all the interface accepts); for each, seeds, messages, key and ciphertext patterns and every altered ciphertext byte",
             [Explorer("cust", ["C22"])] + [Explorer("cust", ["C22"], name=f"k={k} eta=({a},{b})", features=(f"k{k}{a}{b}",), deep=True) for k in range(1, 6) for a in (2, 3) for b in (2, 3)],
             MODEL, BUILD, "parameter sets are chosen at compile time: the quick tier explores 51 of the 2420 (ranks above 5 have key sizes that the array library does not know; a compression width of 12 is outside FIPS 203)"),
    "C23": P("all words of answers of the system generator, interposed at the system call",
             [Explorer("xw", ["C23"], features=("getrandom",))], MODEL, BUILD, "the system generator is reached through libc's syscall or getrandom functions (checked: the check fails if no call arrives); the /dev/urandom fallback for kernels without the system call is not explored"),
    "C24": P("seeds and messages: fills, single bits and a derived sequence; all triples of patterns for keys and ciphertexts; rejection runs of every length in the sampler; the same secrets for every curve; every combination of features that needs no operating system",
             [Explorer("mem", ["C24"], name="heap and stack", hooks=True), BareMetal()],
             "the stack is measured by painting it, for the x86-64 release build of the installed toolchain; the reference is the same operation at the same call site on a fixed input", BUILD),
}
