#!/usr/bin/env python3
"""Development aid: mutates /repo's sources one token at a time in scratch copies, keeps what compiles and
passes the tests. mutate.py list | survivors N (N copies under /tmp/mut, results in /tmp/mut/survivors.jsonl)"""
import json, os, re, subprocess, sys, threading, queue
FILES = ["ml-kem/src/" + f + ".rs" for f in ("algebra", "compress", "crypto", "encode", "kem", "lib", "param", "pke", "util")] + \
        ["x-wing/src/lib.rs", "dhkem/src/lib.rs", "dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"]
SWAP = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | ", " & "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
        (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" \+= ", [" -= "]), (r" \|= ", [" = ", " ^= "]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"&&", ["||"]), (r"\.wrapping_sub\(", [".wrapping_add("]), (r" % ", [" / "])]


import functools


@functools.cache
def source(f):
    return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, text=True, check=True).stdout


def mutants():
    for f in FILES:
        lines = source(f).split("\n")
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l and n + 1 < len(lines) and "mod " in lines[n + 1]:
                break
            t = l.strip()
            if not t or t.startswith("//") or t.startswith("#![") or "html_" in t:
                continue
            def m(new):
                return {"file": f, "line": n, "old": l, "new": new}
            if t.startswith("#["):
                d = re.match(r"(.*derive\()(.*?)(\).*)", l)
                if d:
                    names = [x.strip() for x in d.group(2).split(",")]
                    for x in names:
                        yield m(d.group(1) + ", ".join(y for y in names if y != x) + d.group(3))
                elif "inline" not in t and "allow" not in t and "must_use" not in t and "doc" not in t:
                    yield m("")
                continue
            for pat, news in SWAP:
                for k in re.finditer(pat, l):
                    for x in news:
                        yield m(l[:k.start()] + x + l[k.end():])
            for k in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=(?:u8|u16|u32|u64|usize)?\b)", l):
                v = int(k.group(1), 0)
                for x in {v + 1, max(v - 1, 0)} - {v}:
                    yield m(l[:k.start()] + str(x) + l[k.end():])
            for k in re.finditer(r"\bU(\d+)\b", l):
                if "use " not in l:
                    yield m(l[:k.start()] + f"U{int(k.group(1)) + 1}" + l[k.end():])
            if t.endswith(";") and not t.startswith(("let ", "use ", "type ", "const ", "pub ", "mod ", "return", "fn ")) and "(" in t and t.count("(") == t.count(")"):
                yield m("")
            for a, b in (("to_le_bytes", "to_be_bytes"), ("from_le_bytes", "from_be_bytes"), ("Kbar", "Kp"), ("Kp", "Kbar"), ("pk_m", "sk_m"), ("ct_x", "pk_x"), ("Eta1", "Eta2"), ("Eta2", "Eta1"),
                         ("Du", "Dv"), ("Dv", "Du"), ("rho", "sigma"), ("sigma", "rho"), ("Sha3_256", "Sha3_512"), ("Shake256", "Shake128"), ("Shake128", "Shake256"), ("i", "j"), ("j", "i"), ("x", "y"), ("y", "x"),
                         ("d1", "d2"), ("d2", "d1"), ("true", "false"), ("self", "rhs"), ("rhs", "self"), ("ss_m", "ss_x"), ("ss_x", "ss_m"), ("d", "z"), ("z", "d")):
                for k in re.finditer(r"\b%s\b" % a, l):
                    yield m(l[:k.start()] + b + l[k.end():])


def main():
    ms = list(mutants())
    if sys.argv[1] == "list":
        print(len(ms)); return
    n = int(sys.argv[2])
    q = queue.Queue()
    for i, m in enumerate(ms):
        q.put((i, m))
    os.makedirs("/tmp/mut", exist_ok=True)
    lock = threading.Lock()
    out = open("/tmp/mut/survivors.jsonl", "a")
    stats = {"nobuild": 0, "killed": 0, "survived": 0, "timeout": 0}

    def work(c):
        d = f"/tmp/mut/{c}"
        if not os.path.isdir(d):
            subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        env = dict(os.environ, CARGO_TARGET_DIR=f"/tmp/mut/t{c}", CARGO_BUILD_JOBS="3", CARGO_PROFILE_TEST_OPT_LEVEL="1", CARGO_PROFILE_DEV_OPT_LEVEL="1", RUSTFLAGS="-Awarnings")
        while True:
            try:
                i, m = q.get_nowait()
            except queue.Empty:
                return
            p = f"{d}/{m['file']}"
            src = source(m["file"]).split("\n")
            src[m["line"]] = m["new"]
            open(p, "w").write("\n".join(src))
            crate = m["file"].split("/")[0]
            try:
                r = subprocess.run(["cargo", "check", "--offline", "-q", "-p", crate, "--all-features"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                if r.returncode:
                    k = "nobuild"
                else:
                    r = subprocess.run(["cargo", "test", "--offline", "-q", "--all-features", "--lib", "--tests", "-p", crate] + (["-p", "x-wing"] if crate == "ml-kem" else []), cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
                    k = "killed" if r.returncode else "survived"
            except subprocess.TimeoutExpired:
                k = "timeout"
            with lock:
                stats[k] += 1
                if k in ("survived",):
                    out.write(json.dumps(dict(m, index=i)) + "\n"); out.flush()
                if sum(stats.values()) % 20 == 0:
                    open("/tmp/mut/progress", "w").write(f"{stats} of {len(ms)}")
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
    ts = [threading.Thread(target=work, args=(c,)) for c in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    open("/tmp/mut/progress", "w").write(f"done {stats} of {len(ms)}")


main()
