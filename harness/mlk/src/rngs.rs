//! C11 (ML-KEM part): the generator contract.
use crate::scheme::*;
use crate::script::*;
use vlib::ensure;
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::mlkem;
use vlib::rng::{b32, b32_len, stream};

fn keygen<S: Scheme>(bytes: &[u8; 64], t: &mut Tally) -> Outcome {
    let tail = [0xd6u8; 64];
    let script = [&bytes[..], &tail].concat();
    let mut s = Script::new(&script);
    let (dk, ek) = S::gen_rng(&mut s);
    t.ops(1);
    t.trace();
    let what = || format!("{}: key generation from {}", S::P.name(), vlib::hex(bytes));
    ensure!(s.used == 64, "rng-amount", "{} drew {} bytes ({:?}), not 64", what(), s.used, s.calls);
    let (ek_m, dk_m) = mlkem::keygen(&S::P, &bytes[..32], &bytes[32..]);
    expect_eq("rng-keygen", &what(), &S::dk_bytes(&dk), &dk_m)?;
    t.outcome(&ek_m);
    expect_eq("rng-keygen", &what(), &S::ek_bytes(&ek), &ek_m)
}

fn encaps<S: Scheme>(ekb: &[u8], m: &[u8; 32], t: &mut Tally) -> Outcome {
    let script = [&m[..], &[0xd6u8; 64]].concat();
    let mut s = Script::new(&script);
    let (c, k) = S::enc_rng(&S::ek_parse(ekb), &mut s);
    t.ops(1);
    t.trace();
    let what = || format!("{}: encapsulation with {}", S::P.name(), vlib::hex(m));
    ensure!(s.used == 32, "rng-amount", "{} drew {} bytes ({:?}), not 32", what(), s.used, s.calls);
    let (cm, km) = mlkem::encaps(&S::P, ekb, m);
    expect_eq("rng-encaps", &what(), &c, &cm)?;
    t.outcome(&km);
    expect_eq("rng-encaps", &what(), &k, &km)
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bg: [u8; 64] = stream("C11 background");
    let bg = &bg;
    run.explore(
        "key generation bytes",
        "3 sets x every value at every one of the 64 drawn bytes over a dense background, and all constant fills: exactly d then z, exactly 64 bytes",
        3 * (64 * 255 + 256),
        |i, t| {
            let j = i / 3;
            let mut b = *bg;
            if j < 256 {
                b = [j as u8; 64];
            } else {
                b[((j - 256) / 255) as usize] ^= ((j - 256) % 255 + 1) as u8;
            }
            with_scheme!(i % 3, S => keygen::<S>(&b, t))
        },
    );
    let keys: Vec<Vec<u8>> = [mlkem::P512, mlkem::P768, mlkem::P1024].iter().map(|p| mlkem::keygen(p, &bg[..32], &bg[32..]).0).collect();
    let keys = &keys;
    run.explore(
        "encapsulation bytes",
        "3 sets x (256 fills, every value at every byte over zero and dense backgrounds): exactly m, exactly 32 bytes",
        3 * b32_len(true),
        |i, t| {
            let m = b32(i / 3, &bg[..32].try_into().unwrap());
            with_scheme!(i % 3, S => encaps::<S>(&keys[(i % 3) as usize], &m, t))
        },
    );
    run.explore(
        "operation sequences on one generator",
        "3 sets x all sequences of 1..6 operations from {key generation, encapsulation} drawing from one generator: consecutive bytes in order",
        3 * 126,
        |i, t| {
            let (mut j, mut len) = (i / 3, 1u32);
            while j >= 1 << len {
                j -= 1 << len;
                len += 1;
            }
            let script: [u8; 512] = stream("C11 shared generator");
            with_scheme!(i % 3, S => {
                let ekb = &keys[(i % 3) as usize];
                let ek = S::ek_parse(ekb);
                let mut s = Script::new(&script);
                let mut at = 0;
                for b in 0..len {
                    if j >> b & 1 == 0 {
                        let (dk, _) = S::gen_rng(&mut s);
                        let (_, dm) = mlkem::keygen(&S::P, &script[at..at + 32], &script[at + 32..at + 64]);
                        at += 64;
                        expect_eq("rng-order", &format!("{}: key generation, operation {b} of sequence {j:b}", S::P.name()), &S::dk_bytes(&dk), &dm)?;
                    } else {
                        let (c, k) = S::enc_rng(&ek, &mut s);
                        let (cm, km) = mlkem::encaps(&S::P, ekb, &script[at..at + 32]);
                        at += 32;
                        expect_eq("rng-order", &format!("{}: encapsulation, operation {b} of sequence {j:b}", S::P.name()), &[&c[..], &k].concat(), &[&cm[..], &km].concat())?;
                    }
                    t.ops(1);
                    t.trace();
                    ensure!(s.used == at, "rng-amount", "{}: {} bytes drawn after operation {b}, expected {at}", S::P.name(), s.used);
                }
                Ok(())
            })
        },
    );
    run.explore(
        "generator failures",
        "3 sets x {key generation, encapsulation} x 16 contents x failure at every call x after {none, one, half, all but one, all} bytes: no result, key unchanged and usable",
        3 * 2 * 16,
        |i, t| {
            let (s, j) = ((i % 3) as usize, i / 3);
            let bytes: [u8; 64] = if j / 2 == 0 { [0; 64] } else { stream(&format!("C11 failure {}", j / 2)) };
            with_scheme!(s, S => {
                let (dk, ek) = S::gen_det(bytes[..32].try_into().unwrap(), bytes[32..].try_into().unwrap());
                let (dkb, ekb) = (S::dk_bytes(&dk), S::ek_bytes(&ek));
                let (cm, km) = mlkem::encaps(&S::P, &mlkem::keygen(&S::P, &bytes[..32], &bytes[32..]).0, &[7; 32]);
                let alive = || -> Outcome {
                    ensure!(S::dk_bytes(&dk) == dkb && S::ek_bytes(&ek) == ekb, "rng-failure-key", "{}: a failed operation changed the key", S::P.name());
                    let (c, k) = S::enc_rng(&ek, &mut Script::new(&[7; 32]));
                    ensure!(c == cm && k == km && S::dec(&dk, &c) == km, "rng-failure-key", "{}: the key gives other results after a failed operation", S::P.name());
                    Ok(())
                };
                let n = if j % 2 == 0 {
                    every_failure(&format!("{} key generation", S::P.name()), &bytes, |g| Some(S::gen_rng(g)), alive)?
                } else {
                    every_failure(&format!("{} encapsulation", S::P.name()), &bytes, |g| Some(S::enc_rng(&ek, g)), alive)?
                };
                t.states += n;
                t.ops(n);
                t.traces += n;
                t.sample(|| format!("{} {}: {n} failing generators", S::P.name(), if j % 2 == 0 { "key generation" } else { "encapsulation" }));
                Ok(())
            })
        },
    );
}
