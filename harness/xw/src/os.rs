//! C23: the system generator's answers are enumerated by interposing the system call.
use crate::face::*;
use std::cell::RefCell;
use std::ffi::{c_int, c_long};
use vlib::ensure;
use vlib::engine::{expect_eq, fail, no_panic, Run};
use vlib::xwing;

/// One answer of the system generator.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    /// everything that was asked for
    Full,
    /// at most this many bytes
    Short(usize),
    Eintr,
    /// a failure
    Fail(c_int),
}
use Answer::*;

struct Os {
    script: Vec<Answer>,
    at: usize,
    delivered: Vec<u8>,
    counter: u8,
    log: Vec<(usize, Answer)>,
}

thread_local! {
    static OS: RefCell<Option<Os>> = const { RefCell::new(None) };
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}
const SYS_GETRANDOM: c_long = 318;
const EINTR: c_int = 4;

unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r
}

/// Takes the place of libc's `syscall`; everything but a scripted getrandom goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_GETRANDOM {
        if let Some(r) = answer(a as *mut u8, b as usize) {
            return r;
        }
    }
    raw(n, a, b, c, d, e, f)
}

/// The same for callers of libc's `getrandom`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(a: *mut u8, len: usize, flags: u32) -> isize {
    if let Some(r) = answer(a, len) {
        return r as isize;
    }
    raw(SYS_GETRANDOM, a as c_long, len as c_long, flags as c_long, 0, 0, 0) as isize
}

unsafe fn answer(a: *mut u8, len: usize) -> Option<c_long> {
    OS.try_with(|os| {
        let mut os = os.try_borrow_mut().ok()?;
        let os = os.as_mut()?;
        if len == 0 {
            return Some(0); // a probe for availability
        }
        let ans = os.script.get(os.at).copied().unwrap_or(Full);
        os.at += 1;
        os.log.push((len, ans));
        let n = match ans {
            Full => len,
            Short(n) => n.min(len),
            Eintr => {
                *__errno_location() = EINTR;
                return Some(-1);
            }
            Fail(e) => {
                *__errno_location() = e;
                return Some(-1);
            }
        };
        for i in 0..n {
            // a counter never repeats within one run of 255 bytes, and is never 0
            os.counter = if os.counter == 255 { 1 } else { os.counter + 1 };
            *a.add(i) = os.counter;
            os.delivered.push(os.counter);
        }
        Some(n as c_long)
    })
    .ok()
    .flatten()
}

/// What one constructor call did: the key's seed or a failure, and the bytes the system delivered.
struct Seen {
    seed: Result<Vec<u8>, String>,
    pk: Option<Vec<u8>>,
    delivered: Vec<u8>,
    log: Vec<(usize, Answer)>,
}

/// Runs the constructors one after another against the scripted system.
fn play(script: &[Answer], kinds: &[u64]) -> Vec<Seen> {
    OS.with(|o| *o.borrow_mut() = Some(Os { script: script.to_vec(), at: 0, delivered: vec![], counter: 0, log: vec![] }));
    let out = kinds
        .iter()
        .map(|k| {
            let r = no_panic(|| match k {
                0 => (DecapsulationKey::generate_from_os_rng(), None),
                _ => {
                    let (d, p) = x_wing::generate_key_pair_from_os_rng();
                    (d, Some(p.as_bytes().to_vec()))
                }
            });
            let (delivered, log) = OS.with(|o| {
                let mut o = o.borrow_mut();
                let o = o.as_mut().unwrap();
                (std::mem::take(&mut o.delivered), std::mem::take(&mut o.log))
            });
            match r {
                Ok((d, p)) => Seen { seed: Ok(d.as_bytes().to_vec()), pk: p, delivered, log },
                Err(m) => Seen { seed: Err(m), pk: None, delivered, log },
            }
        })
        .collect();
    OS.with(|o| *o.borrow_mut() = None);
    out
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    // is the system generator reached through the interposed call at all?
    let probe = play(&[], &[0]);
    if probe[0].log.is_empty() {
        run.note("the system generator is not reached through the system call interface; nothing could be scripted");
        run.explore("interposition", "the system generator is reached through the interposed call", 1, |_, _| fail("no-system-randomness", "a key was returned although the system generator was not asked for any bytes"));
        return;
    }
    let alphabet: Vec<Answer> = vec![Full, Short(1), Short(16), Short(31), Eintr, Fail(5), Fail(11), Fail(38)];
    let depth = run.pick(5u32, 7);
    let na = alphabet.len() as u64;
    let (alphabet, kinds_of) = (&alphabet, |j: u64| [[0u64, 0, 0], [1, 1, 1], [0, 1, 0], [1, 0, 1]][j as usize]);
    run.explore(
        "answers of the system generator",
        "all words of 5 (thorough: 7) answers from {full, 1, 16, 31 bytes, interrupted, EIO, EAGAIN, ENOSYS}, then full ones x 4 sequences of 3 constructor calls: each key is exactly the 32 bytes delivered for its call, no key on failure",
        na.pow(depth) * 4,
        |i, t| {
            let kinds = kinds_of(i % 4);
            let script: Vec<Answer> = (0..depth).map(|d| alphabet[(i / 4 / na.pow(d) % na) as usize]).collect();
            let seen = play(&script, &kinds);
            for (j, s) in seen.iter().enumerate() {
                t.ops(1);
                t.trace();
                let what = || format!("call {j} ({}) after answers {:?}", if kinds[j] == 0 { "key" } else { "key pair" }, s.log);
                let failed = s.log.iter().any(|x| matches!(x.1, Fail(_)));
                match &s.seed {
                    Ok(k) => {
                        ensure!(!failed, "key-despite-failure", "{}: a key was returned although the system generator failed", what());
                        ensure!(k[..] == s.delivered[..], "seed-not-delivered-bytes", "{}: seed {} but the system delivered {}", what(), vlib::hex(k), vlib::hex(&s.delivered));
                        if let Some(p) = &s.pk {
                            if i % 64 == 0 {
                                expect_eq("public-key", &what(), p, &xwing::public_key(k[..].try_into().unwrap()))?;
                            }
                        }
                        t.outcome(k);
                    }
                    Err(m) => {
                        ensure!(failed, "no-key-without-failure", "{}: no key ({m}) although the system generator worked", what());
                        t.outcome(b"no key");
                    }
                }
            }
            t.sample(|| format!("{script:?} -> {:?}", seen.iter().map(|s| s.seed.is_ok()).collect::<Vec<_>>()));
            Ok(())
        },
    );
    run.explore(
        "every length of a short read",
        "a short read of every length 1..=31 followed by one of every length, then interrupted or not, then full",
        31 * 31 * 2,
        |i, t| {
            let (a, b) = ((i % 31 + 1) as usize, (i / 31 % 31 + 1) as usize);
            let mut script = vec![Short(a), Short(b)];
            if i / 961 == 1 {
                script.insert(1, Eintr);
            }
            for s in play(&script, &[i % 2, 0]) {
                t.ops(1);
                t.trace();
                match &s.seed {
                    Ok(k) => ensure!(k[..] == s.delivered[..], "seed-not-delivered-bytes", "after {:?}: seed {} but the system delivered {}", s.log, vlib::hex(k), vlib::hex(&s.delivered)),
                    Err(m) => return fail("no-key-without-failure", format!("after {:?}: no key: {m}", s.log)),
                }
            }
            Ok(())
        },
    );
    run.explore("long runs of interruptions", "0..64 interruptions before the answer", 65, |i, t| {
        let mut script = vec![Eintr; i as usize];
        script.push(Full);
        for s in play(&script, &[i % 2, 1]) {
            t.ops(1);
            t.trace();
            ensure!(s.seed.as_deref() == Ok(&s.delivered[..]), "interrupted", "{i} interruptions: {:?}", s.seed.map(|k| vlib::hex(&k)));
        }
        Ok(())
    });
    run.explore("many keys", "every number of successive keys up to 64, alternating constructors: successive keys use successive bytes", 64, |i, t| {
        let kinds: Vec<u64> = (0..=i).map(|x| x % 2).collect();
        let mut want: u8 = 0;
        for (j, s) in play(&[], &kinds).iter().enumerate() {
            t.ops(1);
            t.trace();
            let w: Vec<u8> = (0..32).map(|_| { want = if want == 255 { 1 } else { want + 1 }; want }).collect();
            ensure!(s.seed.as_deref() == Ok(&w[..]), "successive", "key {j} of {}: {:?}, expected the next delivered bytes {}", i + 1, s.seed.as_ref().map(|k| vlib::hex(k)), vlib::hex(&w));
        }
        Ok(())
    });
}
