//! C06 (X-Wing part).
use crate::face::*;
use vlib::ensure;
use vlib::engine::{Outcome, Run, Tally};
use vlib::rng::stream;
use vlib::x25519::special_points;
use vlib::xwing;

fn eks(a: &[u8], b: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let (x, y) = (ek(a), ek(b));
    let same = x.as_bytes() == y.as_bytes();
    t.ops(4);
    t.trace();
    let eq = x == y;
    ensure!(eq == same, if eq { "ek-equal-but-different" } else { "ek-different-but-equal" }, "encapsulation keys compare {eq} but their encodings are {}: {}", if same { "the same" } else { "different" }, what());
    ensure!((y == x) == eq && (x != y) != eq, "ek-eq-inconsistent", "== and != or the two orders disagree: {}", what());
    Ok(())
}

fn cts(a: &[u8], b: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let (x, y) = (ct(a), ct(b));
    let same = a == b;
    t.ops(4);
    t.trace();
    let eq = x == y;
    ensure!(eq == same, if eq { "ct-equal-but-different" } else { "ct-different-but-equal" }, "ciphertexts compare {eq} but their encodings are {}: {}", if same { "the same" } else { "different" }, what());
    ensure!((y == x) == eq && (x != y) != eq, "ct-eq-inconsistent", "== and != or the two orders disagree: {}", what());
    Ok(())
}

fn alter(r: &mut [u8], a: usize, b: usize, kind: u64) {
    match kind {
        0 => {
            r[a] ^= 1;
            r[b] ^= 1
        }
        1 => {
            r[a] = r[a].wrapping_add(1);
            r[b] = r[b].wrapping_sub(1)
        }
        _ => r.swap(a, b),
    }
}

pub fn run(run: &mut Run) {
    let s: [u8; 96] = stream("C06 x-wing");
    let pk = xwing::public_key(s[..32].try_into().unwrap());
    let (c, _) = xwing::encaps(&pk, s[32..].try_into().unwrap());
    let (pk, c) = (&pk, &c);
    run.explore("encapsulation keys one byte apart", "every byte position x every other value (unreduced coefficients are compared as reduced)", 1216 * 255, |i, t| {
        let (p, v) = ((i / 255) as usize, (i % 255 + 1) as u8);
        eks(pk, &flip(pk, p, v), || format!("byte {p} ^ {v:#04x}"), t)
    });
    run.explore("ciphertexts one byte apart", "every byte position x every other value", 1120 * 255, |i, t| {
        let (p, v) = ((i / 255) as usize, (i % 255 + 1) as u8);
        cts(c, &flip(c, p, v), || format!("byte {p} ^ {v:#04x}"), t)
    });
    let nd = run.pick(40u64, 1119);
    run.explore("two bytes apart", "keys and ciphertexts: pairs of positions at 40 distances (thorough: all) x {equal xor, +1/-1, swapped}", 1216 * nd * 3 * 2, |i, t| {
        let (which, kind, i) = (i % 2, i / 2 % 3, i / 6);
        let base = if which == 0 { pk } else { c };
        let (a, k) = ((i % 1216) as usize, i / 1216);
        let d = if nd > 40 { k as usize + 1 } else if k < 32 { k as usize + 1 } else { [64, 96, 128, 256, 384, 544, 1088, 1184 - 32][k as usize - 32] };
        if a + d >= base.len() {
            return Ok(());
        }
        let mut r = base.clone();
        alter(&mut r, a, a + d, kind);
        if which == 0 { eks(base, &r, || format!("bytes {a} and {} kind {kind}", a + d), t) } else { cts(base, &r, || format!("bytes {a} and {} kind {kind}", a + d), t) }
    });
    let sp = special_points();
    let n = sp.len() as u64;
    run.explore("special X25519 parts", "all ordered pairs of low-order, non-canonical and boundary X25519 values, in keys and in ciphertexts: equal only if the same bytes", n * n * 2, |i, t| {
        let (which, i) = (i % 2, i / 2);
        let (x, y) = (&sp[(i % n) as usize], &sp[(i / n) as usize]);
        let what = || format!("X25519 parts {} and {}", x.0, y.0);
        t.sample(what);
        if which == 0 {
            let (a, b) = ([&pk[..1184], &x.1].concat(), [&pk[..1184], &y.1].concat());
            eks(&a, &b, what, t)?;
            if ek(&a) == ek(&b) {
                let e = [9u8; 64];
                ensure!(enc(&ek(&a), &e) == enc(&ek(&b), &e), "equal-not-interchangeable", "equal keys encapsulate differently: {}", what());
                t.ops(2);
            }
            Ok(())
        } else {
            cts(&[&c[..1088], &x.1].concat(), &[&c[..1088], &y.1].concat(), what, t)
        }
    });
    let m = run.pick(48u64, 128);
    run.explore("all pairs of a pool", "ordered pairs of honest keys and ciphertexts made from seeds and randomness that differ in few bytes, each parsed, generated or cloned", m * m, |i, t| {
        let make = |x: u64| {
            let f = |y: u64| { let mut o = [0u8; 32]; o[(y * 5 % 32) as usize] = (y + 1) as u8; o };
            let d = dk(&f(x / 3 % 4));
            let k = d.encapsulation_key();
            let (c, _) = enc_rng(&k, &mut crate::script::Script::new(&[f(x / 12 % 2), f(x / 24)].concat()));
            match x % 3 { 0 => (k, c), 1 => (k.clone(), c.clone()), _ => (ek(&k.as_bytes()), ct(&c.as_bytes())) }
        };
        let (a, b) = (make(i % m), make(i / m));
        t.ops(8);
        t.trace();
        let what = || format!("pool members {} and {}", i % m, i / m);
        ensure!((a.0 == b.0) == (a.0.as_bytes() == b.0.as_bytes()), "ek-pool", "encapsulation keys: {}", what());
        ensure!((a.1 == b.1) == (a.1.as_bytes() == b.1.as_bytes()), "ct-pool", "ciphertexts: {}", what());
        ensure!(a.0.clone() == a.0 && a.1.clone() == a.1, "clone", "a clone differs: {}", what());
        Ok(())
    });
}
