//! C04: implicit rejection.
use crate::scheme::*;
use std::sync::Mutex;
use vlib::engine::{expect_eq, fail, Outcome, Run, Tally};
use vlib::mlkem::{self, Params};
use vlib::rng::{b32, b32_len, stream};

struct Base {
    p: Params,
    dk: Vec<u8>,
    ct: Vec<u8>,
    key: [u8; 32],
}

fn base<S: Scheme>() -> Base {
    let s: [u8; 96] = stream("C04 base");
    let (ek, dk) = mlkem::keygen(&S::P, &s[..32], &s[32..64]);
    let (ct, key) = mlkem::encaps(&S::P, &ek, &s[64..]);
    Base { p: S::P, dk, ct, key }
}

thread_local! {
    /// the parsed key of this thread, per scheme, re-parsed when the bytes change
    static CACHE: std::cell::RefCell<Vec<(Vec<u8>, Box<dyn std::any::Any>)>> = const { std::cell::RefCell::new(vec![]) };
}

fn with_dk<S: Scheme, R>(bytes: &[u8], f: impl FnOnce(&S::Dk) -> R) -> R {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        let at = match c.iter().position(|(b, k)| b == bytes && k.is::<S::Dk>()) {
            Some(i) => i,
            None => {
                if c.len() > 3 {
                    c.clear();
                }
                c.push((bytes.to_vec(), Box::new(S::dk_parse(bytes))));
                c.len() - 1
            }
        };
        f(c[at].1.downcast_ref::<S::Dk>().unwrap())
    })
}

/// A ciphertext next to the honest one: the model's answer is J(z || c) unless the full model says
/// it is accepted (computed only when the implementation disagrees with the rejection value).
fn near<S: Scheme>(b: &Base, c: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let got = with_dk::<S, _>(&b.dk, |dk| S::dec(dk, c));
    t.ops(1);
    t.trace();
    let z = &b.dk[b.dk.len() - 32..];
    if got == mlkem::reject(z, c) && c != b.ct {
        return Ok(());
    }
    judge(b, &got, c, what)
}

fn judge(b: &Base, got: &[u8; 32], c: &[u8], what: impl Fn() -> String) -> Outcome {
    let (want, accepted) = mlkem::decaps_ex(&b.p, &b.dk, c);
    if *got == want {
        return Ok(());
    }
    let kind = if *got == b.key && c != b.ct {
        "honest-key-for-altered-ciphertext"
    } else if accepted {
        "valid-rejected"
    } else {
        "wrong-rejection-value"
    };
    fail(kind, format!("{}: {}: got {} want {} (model {})", b.p.name(), what(), vlib::hex(got), vlib::hex(&want), if accepted { "accepts" } else { "rejects" }))
}

/// Full model on the given key and ciphertext.
fn full<S: Scheme>(dk: &[u8], c: &[u8], what: impl Fn() -> String, t: &mut Tally, accepted: &Mutex<(u64, u64)>) -> Outcome {
    let got = S::dec(&S::dk_parse(dk), c);
    let (want, acc) = mlkem::decaps_ex(&S::P, &mlkem::canonical_dk(&S::P, dk), c);
    t.ops(1);
    t.trace();
    t.outcome(&got);
    {
        let mut a = accepted.lock().unwrap();
        if acc { a.0 += 1 } else { a.1 += 1 }
    }
    t.sample(|| format!("{} {} -> {} ({})", S::P.name(), what(), vlib::hex(&got), if acc { "accepted" } else { "rejected" }));
    expect_eq(if acc { "valid-rejected" } else { "wrong-rejection-value" }, &format!("{}: {}", S::P.name(), what()), &got, &want)
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bases = [base::<S512>(), base::<S768>(), base::<S1024>()];
    let bases = &bases;
    let acc = Mutex::new((0u64, 0u64));
    let acc = &acc;
    let fills = run.pick(1u64, 8);

    run.explore(
        "single-byte substitutions",
        "3 sets x every position of an honest ciphertext x every one of the 255 other values",
        (768 + 1088 + 1568) * 255,
        |i, t| {
            let (delta, pos) = ((i % 255 + 1) as u8, (i / 255) as usize);
            let (s, pos) = split(pos);
            let b = &bases[s];
            let mut c = b.ct.clone();
            c[pos] ^= delta;
            t.sample(|| format!("{} c[{pos}] ^= {delta:#04x} -> rejection value", b.p.name()));
            with_scheme!(s, S => near::<S>(b, &c, || format!("c[{pos}] ^= {delta:#04x}"), t))
        },
    );
    run.explore(
        "runs of altered bytes",
        "3 sets x every count n of altered bytes from 1 to the ciphertext length x {first n, last n, every second of the first 2n} x 4 alterations (xor 1, xor 0x80, xor 0xff, +1)",
        (768 + 1088 + 1568) * 12,
        |i, t| {
            let (kind, n) = (i % 12, (i / 12) as usize);
            let (s, n) = split(n);
            let b = &bases[s];
            let (n, len) = (n + 1, b.ct.len());
            let mut c = b.ct.clone();
            for x in 0..n {
                let at = match kind / 4 { 0 => x, 1 => len - 1 - x, _ => 2 * x };
                if at < len {
                    c[at] = alter(c[at], kind % 4);
                }
            }
            with_scheme!(s, S => near::<S>(b, &c, || format!("{n} bytes altered, kind {kind}"), t))
        },
    );
    // pairs of altered bytes whose differences cancel
    let kinds: &[(u8, u8)] = if run.thorough() { &[(0, 0), (1, 1), (2, 2), (3, 4)] } else { &[(0, 0), (3, 4)] };
    for s in 0..3usize {
        let len = bases[s].ct.len();
        let dist: Vec<usize> = if run.thorough() { (1..len).collect() } else {
            let near = if s == 0 { 48 } else { 16 };
            (1..len).filter(|d| *d <= near || d.is_power_of_two() || d % 160 == 0 || d % 168 == 0 || d % 136 == 0 || *d == len / 2 || *d == len - 1 || d % 320 == 0 || d % 352 == 0).collect()
        };
        let (dist, kinds) = (&dist, &kinds);
        run.explore(
            &format!("cancelling pairs {}", bases[s].p.name()),
            "pairs of positions at the chosen distances (quick: 1..16 or 48, powers of two, block and polynomial strides; thorough: all pairs), altered by equal xor differences or by +1/-1, so that summed or xored differences cancel",
            (len * dist.len() * kinds.len()) as u64,
            |i, t| {
                let i = i as usize;
                let (a, d) = (i % len, dist[i / len % dist.len()]);
                let (ka, kb) = kinds[i / len / dist.len()];
                if a + d >= len {
                    return Ok(());
                }
                let b = &bases[s];
                let mut c = b.ct.clone();
                c[a] = alter(c[a], ka as u64);
                c[a + d] = alter(c[a + d], kb as u64);
                with_scheme!(s, S => near::<S>(b, &c, || format!("bytes {a} and {} altered, kinds {ka} {kb}", a + d), t))
            },
        );
    }
    run.explore(
        "rejection seed alphabet",
        "3 sets x (256 fills, every value at every byte over zero and dense backgrounds) of z in a parsed key x {honest ciphertext, last byte altered, zero ciphertext}",
        3 * b32_len(true) * 3,
        |i, t| {
            let (s, j) = ((i % 3) as usize, i / 3);
            let b = &bases[s];
            let z = b32(j / 3, &stream("C04 z background"));
            let mut dk = b.dk.clone();
            let n = dk.len();
            dk[n - 32..].copy_from_slice(&z);
            let mut c = b.ct.clone();
            let l = c.len();
            let want = match j % 3 {
                0 => b.key,
                1 => { c[l - 1] ^= 1; mlkem::reject(&z, &c) }
                _ => { c.fill(0); mlkem::reject(&z, &c) }
            };
            t.ops(1);
            t.trace();
            with_scheme!(s, S => {
                let got = S::dec(&S::dk_parse(&dk), &c);
                t.outcome(&got);
                if got == want { Ok(()) } else {
                    judge(&Base { p: b.p, dk, ct: b.ct.clone(), key: b.key }, &got, &c, || format!("z={} ciphertext kind {}", vlib::hex(&z), j % 3))
                }
            })
        },
    );
    // arbitrary bytes in the decapsulation key
    let nd: u64 = if run.thorough() { 255 } else { 3 };
    run.explore(
        "altered decapsulation key",
        "3 sets x every byte of the decapsulation key (secret vector, public key, hash, z) x differences {1, 0x80, 0xff} (thorough: all 255) x {honest, altered ciphertext}",
        (1632 + 2400 + 3168) * nd * 2,
        |i, t| {
            let (bad, i) = (i % 2, i / 2);
            let (dl, pos) = (i % nd, (i / nd) as usize);
            let delta = if nd == 3 { [1u8, 0x80, 0xff][dl as usize] } else { dl as u8 + 1 };
            let (s, pos) = if pos < 1632 { (0, pos) } else if pos < 4032 { (1, pos - 1632) } else { (2, pos - 4032) };
            let b = &bases[s];
            let mut dk = b.dk.clone();
            dk[pos] ^= delta;
            let mut c = b.ct.clone();
            if bad == 1 {
                let at = pos % c.len();
                c[at] ^= delta;
            }
            with_scheme!(s, S => full::<S>(&dk, &c, || format!("dk[{pos}] ^= {delta:#04x}, ciphertext {}", if bad == 1 { "altered" } else { "honest" }), t, acc))
        },
    );
    run.explore(
        "constant keys and ciphertexts",
        "3 sets x every constant fill of the decapsulation key x constant fills of the ciphertext {same, 0, 255} (thorough: 8 fills)",
        3 * 256 * (2 + fills),
        |i, t| {
            let (s, j) = ((i % 3) as usize, i / 3);
            let (a, k) = ((j % 256) as u8, j / 256);
            let f = if k == 0 { a } else if k == 1 { 0 } else { 255 - (k as u8 - 2) * 31 };
            with_scheme!(s, S => full::<S>(&vec![a; S::P.dk_len()], &vec![f; S::P.ct_len()], || format!("dk fill {a:#04x}, ciphertext fill {f:#04x}"), t, acc))
        },
    );
    run.explore(
        "foreign and dishonest ciphertexts",
        "3 sets x {encryption to the key of another seed; re-encryption of m with coins of another message; honest ciphertext for every message of the alphabet (accepted); the same rotated by one byte}",
        3 * 4 * 256,
        |i, t| {
            let (s, j) = ((i % 3) as usize, i / 3);
            let (kind, x) = (j % 4, (j / 4) as u8);
            let b = &bases[s];
            with_scheme!(s, S => {
                let ek = &b.dk[384 * S::P.k..768 * S::P.k + 32];
                let m = [x; 32];
                let c = match kind {
                    0 => { let (o, _) = mlkem::keygen(&S::P, &m, &m); mlkem::encaps(&S::P, &o, &m).0 }
                    1 => mlkem::pke_encrypt(&S::P, ek, &m, &[x ^ 1; 32]),
                    2 => mlkem::encaps(&S::P, ek, &m).0,
                    _ => { let mut c = mlkem::encaps(&S::P, ek, &m).0; c.rotate_left(1); c }
                };
                full::<S>(&b.dk, &c, || format!("kind {kind}, byte {x:#04x}"), t, acc)
            })
        },
    );
    let a = acc.lock().unwrap();
    run.note(format!("fully modelled decapsulations: {} accepted, {} rejected", a.0, a.1));
}

fn alter(x: u8, kind: u64) -> u8 {
    match kind {
        0 => x ^ 1,
        1 => x ^ 0x80,
        2 => x ^ 0xff,
        3 => x.wrapping_add(1),
        _ => x.wrapping_sub(1),
    }
}

/// Position in the three ciphertexts laid end to end.
fn split(pos: usize) -> (usize, usize) {
    if pos < 768 { (0, pos) } else if pos < 768 + 1088 { (1, pos - 768) } else { (2, pos - 1856) }
}
