//! C06 (ML-KEM part): equality is equality of encodings.
use crate::scheme::*;
use vlib::ensure;
use vlib::engine::{Outcome, Run, Tally};
use vlib::mlkem;
use vlib::rng::stream;

fn dk_pair<S: Scheme>(a: &S::Dk, ab: &[u8], b: &S::Dk, bb: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    t.ops(4);
    t.trace();
    let same = ab == bb;
    let eq = a == b;
    #[allow(clippy::partialeq_ne_impl)]
    let ne = a != b;
    ensure!(eq == same, if eq { "dk-equal-but-different" } else { "dk-different-but-equal" }, "{}: decapsulation keys compare {} but encodings are {}: {}", S::P.name(), eq, if same { "the same" } else { "different" }, what());
    ensure!((b == a) == eq && ne != eq, "dk-eq-inconsistent", "{}: == and != or the two orders disagree: {}", S::P.name(), what());
    Ok(())
}

fn ek_pair<S: Scheme>(a: &S::Ek, ab: &[u8], b: &S::Ek, bb: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    t.ops(4);
    t.trace();
    let same = ab == bb;
    let eq = a == b;
    ensure!(eq == same, if eq { "ek-equal-but-different" } else { "ek-different-but-equal" }, "{}: encapsulation keys compare {} but encodings are {}: {}", S::P.name(), eq, if same { "the same" } else { "different" }, what());
    ensure!((b == a) == eq && (a != b) != eq, "ek-eq-inconsistent", "{}: == and != or the two orders disagree: {}", S::P.name(), what());
    Ok(())
}

pub fn run(run: &mut Run) {
    let z: [u8; 32] = stream("C06 z");
    let d: [u8; 32] = stream("C06 d");
    let base = [mlkem::keygen(&mlkem::P512, &d, &z).1, mlkem::keygen(&mlkem::P768, &d, &z).1, mlkem::keygen(&mlkem::P1024, &d, &z).1];
    let base = &base;
    let where_ = |pos: usize| if pos < 1632 { (0, pos) } else if pos < 4032 { (1, pos - 1632) } else { (2, pos - 4032) };
    run.explore(
        "decapsulation keys one byte apart",
        "3 sets x every byte position x every other value: the altered key against the original (equality iff the re-serialised encodings agree)",
        (1632 + 2400 + 3168) * 255,
        |i, t| {
            let (s, pos) = where_((i / 255) as usize);
            let v = (i % 255 + 1) as u8;
            with_scheme!(s, S => {
                let mut raw = base[s].clone();
                raw[pos] ^= v;
                let a = S::dk_parse(&base[s]);
                let b = S::dk_parse(&raw);
                t.sample(|| format!("{} dk against itself with byte {pos} ^ {v:#04x}", S::P.name()));
                dk_pair::<S>(&a, &S::dk_bytes(&a), &b, &S::dk_bytes(&b), || format!("byte {pos} ^ {v:#04x}"), t)
            })
        },
    );
    run.explore(
        "decapsulation keys two bytes apart",
        "3 sets x every position p x distances {1, 2, 3, 4, 8, 16, 32, 64, 384, 384k, half} x {equal xor difference, +1/-1, swapped bytes}",
        (1632 + 2400 + 3168) * 33,
        |i, t| {
            let (s, pos) = where_((i / 33) as usize);
            let (dist, kind) = ((i % 11) as usize, i / 11 % 3);
            with_scheme!(s, S => {
                let raw = &base[s];
                let d = [1, 2, 3, 4, 8, 16, 32, 64, 384, 384 * S::P.k, raw.len() / 2][dist];
                if pos + d >= raw.len() {
                    return Ok(());
                }
                let mut r = raw.clone();
                match kind {
                    0 => { r[pos] ^= 1; r[pos + d] ^= 1 }
                    1 => { r[pos] = r[pos].wrapping_add(1); r[pos + d] = r[pos + d].wrapping_sub(1) }
                    _ => r.swap(pos, pos + d),
                }
                let a = S::dk_parse(raw);
                let b = S::dk_parse(&r);
                dk_pair::<S>(&a, &S::dk_bytes(&a), &b, &S::dk_bytes(&b), || format!("bytes {pos}, {} kind {kind}", pos + d), t)
            })
        },
    );
    run.explore(
        "encapsulation keys one byte apart",
        "3 sets x every byte position x every other value that leaves the coefficients reduced",
        (800 + 1184 + 1568) * 255,
        |i, t| {
            let pos = (i / 255) as usize;
            let (s, pos) = if pos < 800 { (0, pos) } else if pos < 1984 { (1, pos - 800) } else { (2, pos - 1984) };
            let v = (i % 255 + 1) as u8;
            with_scheme!(s, S => {
                let n = 384 * S::P.k;
                let e = &base[s][n..2 * n + 32];
                let mut raw = e.to_vec();
                raw[pos] ^= v;
                let a = S::ek_parse(e);
                let b = S::ek_parse(&raw);
                let bb = S::ek_bytes(&b);
                if bb != raw {
                    return Ok(()); // fails the FIPS 203 modulus check
                }
                ek_pair::<S>(&a, e, &b, &bb, || format!("byte {pos} ^ {v:#04x}"), t)
            })
        },
    );
    let n = run.pick(72u64, 256);
    run.explore(
        "all pairs of a pool of keys",
        "3 sets x all ordered pairs of a pool of generated keys sharing d, z, both or neither, each held generated, cloned and parsed: equality iff same encoding, for both key types; clones equal originals",
        3 * n * n,
        |i, t| {
            let (s, j) = (i % 3, i / 3);
            with_scheme!(s, S => {
                let make = |x: u64| {
                    let f = |y: u64| { let mut o = [0u8; 32]; o[(y % 32) as usize] = (y + 1) as u8; o };
                    // x = form + 3 * (a + 6 * b), a and b small: seeds collide often
                    let (form, a, b) = (x % 3, x / 3 % 4, x / 12);
                    let (dk, ek) = S::gen_det(&f(a), &f(b));
                    match form {
                        0 => (dk, ek),
                        1 => { let c = (dk.clone(), ek.clone()); drop(dk); drop(ek); c }
                        _ => (S::dk_parse(&S::dk_bytes(&dk)), S::ek_parse(&S::ek_bytes(&ek))),
                    }
                };
                let (a, b) = (make(j % n), make(j / n));
                let (ab, bb) = (S::dk_bytes(&a.0), S::dk_bytes(&b.0));
                let what = || format!("pool keys {} and {}", j % n, j / n);
                t.outcome(&[(ab == bb) as u8, (S::ek_bytes(&a.1) == S::ek_bytes(&b.1)) as u8]);
                dk_pair::<S>(&a.0, &ab, &b.0, &bb, what, t)?;
                ek_pair::<S>(&a.1, &S::ek_bytes(&a.1), &b.1, &S::ek_bytes(&b.1), what, t)?;
                ek_pair::<S>(S::ek_of(&a.0), &S::ek_bytes(S::ek_of(&a.0)), &b.1, &S::ek_bytes(&b.1), what, t)?;
                ensure!(a.0.clone() == a.0 && a.1.clone() == a.1 && a.0 == a.0 && a.1 == a.1, "clone", "{}: a clone differs: {}", S::P.name(), what());
                if ab == bb {
                    let m = [j as u8; 32];
                    let (x, y) = (S::enc_det(&a.1, &m), S::enc_det(&b.1, &m));
                    ensure!(x == y && S::dec(&a.0, &x.0) == S::dec(&b.0, &x.0), "equal-not-interchangeable", "{}: equal keys give different results: {}", S::P.name(), what());
                    t.ops(4);
                }
                Ok(())
            })
        },
    );
}
