//! C15 (ML-KEM part): no input of the right size makes an operation fail.
use crate::scheme::*;
use vlib::engine::{Outcome, Run, Tally};
use vlib::rng::stream;

fn pattern(i: u64, len: usize) -> Vec<u8> {
    match i {
        0..=7 => vec![[0u8, 0xff, 0x55, 0xaa, 0x0d, 0xd0, 0x80, 0x7f][i as usize]; len],
        8 => (0..len).map(|x| x as u8).collect(),
        9 => (0..len).map(|x| (255 - x % 256) as u8).collect(),
        10 => (0..len).map(|x| [0x00, 0x1d, 0xd0][x % 3]).collect(), // coefficients q-1 and q around
        11 => (0..len).map(|x| [0x01, 0x1d, 0xd0][x % 3]).collect(),
        12 => (0..len).map(|x| if x % 2 == 0 { 0 } else { 0xff }).collect(),
        _ => (0..len).map(|x| if x < len / 2 { 0 } else { 0xff }).collect(),
    }
}
const PATTERNS: u64 = 14;

fn fill12(v: u16, n: usize) -> Vec<u8> {
    let b = [v as u8, (v >> 8) as u8 | ((v & 15) << 4) as u8, (v >> 4) as u8];
    (0..n).map(|i| b[i % 3]).collect()
}

/// Every operation that takes these objects; nothing is compared, everything must complete.
fn exercise<S: Scheme>(dk: &[u8], ek: &[u8], c: &[u8], m: &[u8; 32], t: &mut Tally) -> Outcome {
    let d = S::dk_parse(dk);
    let e = S::ek_parse(ek);
    let k = S::dec(&d, c);
    let (c2, k2) = S::enc_det(&e, m);
    let k3 = S::dec(&d.clone(), &c2);
    let (c3, _) = S::enc_det(S::ek_of(&d), m);
    let k4 = S::dec(&d, &c3);
    let again = S::dk_parse(&S::dk_bytes(&d));
    let same = again == d && S::ek_parse(&S::ek_bytes(&e)) == e.clone() && (S::ek_of(&d) == &e || S::ek_of(&d) != &e);
    t.ops(12);
    t.trace();
    t.outcome(&[&k[..], &k2, &k3, &k4].concat());
    vlib::ensure!(c2.len() == c.len() && c3.len() == c.len(), "size", "{}: ciphertext of {} bytes", S::P.name(), c2.len());
    vlib::ensure!(same, "round-trip", "{}: a re-parsed key differs", S::P.name());
    Ok(())
}

pub fn run(run: &mut Run) {
    let fixed: [u8; 32] = stream("C15");
    run.explore(
        "patterns",
        "3 sets x all triples of byte patterns for decapsulation key, encapsulation key and ciphertext (the message patterned too): parse, decapsulate, encapsulate, re-encapsulate to the inner key, clone, compare, serialise",
        3 * PATTERNS * PATTERNS * PATTERNS,
        |i, t| {
            let j = i / 3;
            with_scheme!(i % 3, S => {
                let m: [u8; 32] = pattern((j + 5) % PATTERNS, 32).try_into().unwrap();
                exercise::<S>(&pattern(j % PATTERNS, S::P.dk_len()), &pattern(j / PATTERNS % PATTERNS, S::P.ek_len()), &pattern(j / PATTERNS / PATTERNS, S::P.ct_len()), &m, t)
            })
        },
    );
    let kinds = run.pick(4u64, PATTERNS);
    run.explore(
        "every 12-bit value throughout",
        "3 sets x every 12-bit value as every coefficient of the secret and (its complement) of the public vector x ciphertext patterns",
        3 * 4096 * kinds,
        |i, t| {
            let (v, j) = ((i / 3 % 4096) as u16, i / 3 / 4096);
            with_scheme!(i % 3, S => {
                let mut dk = fill12(v, 384 * S::P.k);
                let ek = [&fill12(4095 - v, 384 * S::P.k)[..], &fixed].concat();
                dk.extend(&ek);
                dk.extend([v as u8; 64]);
                exercise::<S>(&dk, &ek, &pattern(j, S::P.ct_len()), &fixed, t)
            })
        },
    );
    run.explore(
        "every 12-bit value against every other extreme",
        "3 sets x every 12-bit value as secret coefficient x public coefficients in {0, 1, q-1, q, q+1, 4095} x two ciphertexts: largest accumulations",
        3 * 4096 * 12,
        |i, t| {
            let (v, j) = ((i / 3 % 4096) as u16, i / 3 / 4096);
            with_scheme!(i % 3, S => {
                let ek = [&fill12([0, 1, 3328, 3329, 3330, 4095][(j / 2) as usize], 384 * S::P.k)[..], &fixed].concat();
                let dk = [&fill12(v, 384 * S::P.k)[..], &ek, &[0xff; 64]].concat();
                exercise::<S>(&dk, &ek, &pattern([8, 1][(j % 2) as usize], S::P.ct_len()), &fixed, t)
            })
        },
    );
    let bases = run.pick(2u64, PATTERNS);
    let vals: &[u8] = if run.thorough() { &[0, 1, 0x0d, 0x10, 0x7f, 0x80, 0xd0, 0xff] } else { &[0, 0x0d, 0xff] };
    let nv = vals.len() as u64;
    for s in 0..3u64 {
        let len = with_scheme!(s, S => S::P.dk_len()) as u64;
        run.explore(
            &format!("extreme bytes {}", 512 + 256 * s),
            "every byte of the decapsulation key set to an extreme value over patterns, with the ciphertext byte at the same position (modulo its length)",
            len * nv * bases,
            |i, t| {
                let (p, v, j) = ((i % len) as usize, vals[(i / len % nv) as usize], i / len / nv);
                with_scheme!(s, S => {
                    let mut dk = pattern([8, 1][(j % 2) as usize] + j / 2, S::P.dk_len());
                    let mut c = pattern(j % PATTERNS, S::P.ct_len());
                    dk[p] = v;
                    let l = c.len();
                    c[p % l] = v;
                    let ek = dk[384 * S::P.k..768 * S::P.k + 32].to_vec();
                    exercise::<S>(&dk, &ek, &c, &fixed, t)
                })
            },
        );
    }
    let step = run.pick(17u64, 1);
    run.explore("seeds", "3 sets x all pairs of fills of the two seeds of key generation and of the message", 3 * 256 * run.pick(16, 256), |i, t| {
        let (a, b) = ((i / 3 % 256) as u8, (i / 3 / 256 * step) as u8);
        with_scheme!(i % 3, S => {
            let (dk, ek) = S::gen_det(&[a; 32], &[b; 32]);
            let (dk2, _) = S::gen_rng(&mut Tape(&[[a; 32], [b; 32]].concat()));
            let (c, k) = S::enc_rng(&ek, &mut Tape(&[b; 32]));
            let r = S::dec(&dk2, &c);
            t.ops(4);
            t.trace();
            t.outcome(&k);
            vlib::ensure!(r == k && dk == dk2, "exchange", "{}: exchange for fills {a:#x}, {b:#x}", S::P.name());
            Ok(())
        })
    });
    run.explore("debug output", "3 sets x patterns: formatting keys completes", 3 * PATTERNS, |i, t| {
        with_scheme!(i % 3, S => {
            let s = format!("{:?} {:?}", S::dk_parse(&pattern(i / 3, S::P.dk_len())), S::ek_parse(&pattern(i / 3, S::P.ek_len())));
            t.ops(2);
            t.trace();
            t.outcome(s.as_bytes());
            Ok(())
        })
    });
}
