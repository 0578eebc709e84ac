//! C15 (X-Wing part): no input of the right size makes an operation fail.
use crate::face::*;
use vlib::engine::{Outcome, Run, Tally};
use vlib::rng::stream;
use vlib::x25519::special_points;

fn pattern(i: u64, len: usize) -> Vec<u8> {
    match i {
        0..=7 => vec![[0u8, 0xff, 0x55, 0xaa, 0x0d, 0xd0, 0x80, 0x7f][i as usize]; len],
        8 => (0..len).map(|x| x as u8).collect(),
        9 => (0..len).map(|x| (255 - x % 256) as u8).collect(),
        10 => (0..len).map(|x| [0x00, 0x1d, 0xd0][x % 3]).collect(), // coefficients around q
        11 => (0..len).map(|x| [0x01, 0x1d, 0xd0][x % 3]).collect(),
        12 => (0..len).map(|x| if x % 2 == 0 { 0 } else { 0xff }).collect(),
        _ => (0..len).map(|x| if x < len / 2 { 0 } else { 0xff }).collect(),
    }
}
const PATTERNS: u64 = 14;

fn exercise(seed: &[u8; 32], k: &[u8], c: &[u8], r: &[u8; 64], t: &mut Tally) -> Outcome {
    let d = dk(seed);
    let p = ek(k);
    let c = ct(c);
    let (c2, _) = enc_rng(&p, &mut crate::script::Script::new(r));
    let a = dec(&d, &c);
    let _ = dec(&d.clone(), &c2);
    let _ = (p.as_bytes(), c.as_bytes(), p.clone() == p, c2 == c, d.encapsulation_key() == p);
    t.ops(9);
    t.trace();
    t.outcome(&a);
    Ok(())
}

pub fn run(run: &mut Run) {
    let sp = special_points();
    let np = sp.len() as u64;
    let rr: [u8; 64] = stream("C15 x-wing");
    run.explore("patterns", "all triples of patterns for seed, encapsulation key and ciphertext, randomness patterned too: every operation completes", PATTERNS * PATTERNS * PATTERNS, |i, t| {
        let f = |j: u64, n| pattern(j, n);
        let seed = f(i % PATTERNS, 32).try_into().unwrap();
        let r = f((i + 3) % PATTERNS, 64).try_into().unwrap();
        exercise(&seed, &f(i / PATTERNS % PATTERNS, 1216), &f(i / PATTERNS / PATTERNS, 1120), &r, t)
    });
    run.explore("special X25519 values", "all pairs of special X25519 values in key and ciphertext x patterns of the ML-KEM parts", np * np * run.pick(2, PATTERNS), |i, t| {
        let (a, b, j) = (&sp[(i % np) as usize].1, &sp[(i / np % np) as usize].1, i / np / np);
        exercise(&[j as u8; 32], &[&pattern(j, 1184)[..], a].concat(), &[&pattern(j + 1, 1088)[..], b].concat(), &rr, t)
    });
    run.explore("extreme bytes", "every byte of key and ciphertext set to 0, 0xff over every pattern", 1216 * 2 * run.pick(4, PATTERNS), |i, t| {
        let (p, v, j) = ((i % 1216) as usize, (i / 1216 % 2) as u8 * 0xff, i / 2432);
        let mut k = pattern(j, 1216);
        let mut c = pattern(j, 1120);
        k[p] = v;
        c[p % 1120] = v;
        exercise(&[v; 32], &k, &c, &rr, t)
    });
}
