//! C02: encapsulation = FIPS 203 on structured alphabets of messages and encapsulation keys.
use crate::scheme::*;
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::mlkem::{self, Poly};
use vlib::rng::{b32, b32_len, stream};

/// `raw` may hold unreduced coefficients; the model works on the reduced key.
pub fn one<S: Scheme>(ek: &S::Ek, raw: &[u8], m: &[u8; 32], t: &mut Tally) -> Outcome {
    let canon = mlkem::canonical_ek(&S::P, raw);
    let (c_m, k_m) = mlkem::encaps(&S::P, &canon, m);
    let what = |s: &str| format!("{}: {s} for ek={} m={}", S::P.name(), vlib::brief(raw), vlib::hex(m));
    let (c, k) = S::enc_det(ek, m);
    expect_eq("ciphertext", &what("ciphertext"), &c, &c_m)?;
    expect_eq("key", &what("shared key"), &k, &k_m)?;
    let (c, k) = S::enc_rng(ek, &mut Tape(m));
    expect_eq("ciphertext-rng", &what("ciphertext (generator path)"), &c, &c_m)?;
    expect_eq("key-rng", &what("shared key (generator path)"), &k, &k_m)?;
    t.ops(2);
    t.trace();
    t.trace();
    t.outcome(&k_m);
    t.sample(|| format!("{} ek={} m={} -> c {} K {}", S::P.name(), vlib::brief(raw), vlib::hex(m), vlib::brief(&c_m), vlib::hex(&k_m)));
    Ok(())
}

fn key<S: Scheme>(label: &str) -> Vec<u8> {
    let b: [u8; 64] = stream(label);
    mlkem::keygen(&S::P, &b[..32], &b[32..]).0
}

fn parsed<S: Scheme>(raw: &[u8], m: &[u8; 32], t: &mut Tally) -> Outcome {
    one::<S>(&S::ek_parse(raw), raw, m, t)
}

/// An encapsulation key whose coefficient i of polynomial j is `f(j, i)` (12 bits, unreduced).
pub fn ek_of<S: Scheme>(f: impl Fn(usize, usize) -> u16, rho: &[u8; 32]) -> Vec<u8> {
    let mut o = vec![];
    for j in 0..S::P.k {
        let p: Poly = core::array::from_fn(|i| f(j, i) & 0xfff);
        o.extend(mlkem::byte_encode(12, &p));
    }
    o.extend(rho);
    o
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bg: [u8; 32] = stream("C02 background");
    let keys = [key::<S512>("C02 key"), key::<S768>("C02 key"), key::<S1024>("C02 key")];
    let keys = &keys;
    run.explore(
        "message alphabet, generated key",
        "3 sets x (256 fills, every value at every byte over zero and dense backgrounds) of m; key freshly generated",
        3 * b32_len(true),
        |i, t| {
            let m = b32(i / 3, &bg);
            with_scheme!(i % 3, S => {
                let s: [u8; 64] = stream("C02 key");
                let (_, ek) = S::gen_det(s[..32].try_into().unwrap(), s[32..].try_into().unwrap());
                one::<S>(&ek, &keys[(i % 3) as usize], &m, t)
            })
        },
    );
    run.explore(
        "coefficient diagonal, parsed key",
        "3 sets x strides {1, 17, 3329/2, 0} x 4096 offsets: coefficient i of polynomial j is offset + stride*(i + 256 j) mod 4096, so every 12-bit value stands at every position",
        3 * 4 * 4096,
        |i, t| {
            let (s, j) = (i % 3, i / 3);
            let stride = [1usize, 17, 1665, 0][(j % 4) as usize];
            let off = (j / 4) as usize;
            let m: [u8; 32] = core::array::from_fn(|b| (off as u8).wrapping_mul(31).wrapping_add(b as u8));
            with_scheme!(s, S => {
                let raw = ek_of::<S>(|p, c| (off + stride * (c + 256 * p)) as u16, &bg);
                parsed::<S>(&raw, &m, t)
            })
        },
    );
    let vals: &[u16] = if run.thorough() {
        &[1, 2, 1664, 1665, 2047, 2048, 3327, 3328, 3329, 3330, 3583, 3584, 4094, 4095]
    } else {
        &[1, 3328, 3329, 4095]
    };
    let nv = vals.len() as u64;
    run.explore(
        "single coefficient, parsed key",
        "3 sets x every coefficient position x boundary values, over zero and over a generated background",
        3 * 4 * 256 * nv * 2,
        |i, t| {
            let (s, j) = (i % 3, i / 3);
            with_scheme!(s, S => {
                let (pos, j) = ((j % 1024) as usize, j / 1024);
                let (v, dense) = (vals[(j % nv) as usize], j / nv == 1);
                if pos >= 256 * S::P.k {
                    return Ok(());
                }
                let base: Vec<Poly> = keys[s as usize][..384 * S::P.k].chunks(384).map(|c| mlkem::byte_decode(12, c)).collect();
                let raw = ek_of::<S>(|p, c| if 256 * p + c == pos { v } else if dense { base[p][c] } else { 0 }, &[pos as u8; 32]);
                parsed::<S>(&raw, &b32(pos as u64 % b32_len(true), &bg), t)
            })
        },
    );
    run.explore(
        "matrix seed alphabet, parsed key",
        "3 sets x (256 fills, every value at every byte over zero) of the matrix seed",
        3 * b32_len(false),
        |i, t| {
            let rho = b32(i / 3, &bg);
            with_scheme!(i % 3, S => {
                let mut raw = keys[(i % 3) as usize].clone();
                let n = raw.len();
                raw[n - 32..].copy_from_slice(&rho);
                parsed::<S>(&raw, &bg, t)
            })
        },
    );
    run.explore(
        "whole-key fills and message fills",
        "3 sets x every constant byte fill of the whole key x message fills {same, 0, 255}",
        3 * 256 * 3,
        |i, t| {
            let (s, j) = (i % 3, i / 3);
            let fill = (j % 256) as u8;
            let m = [[fill, 0, 255][(j / 256) as usize]; 32];
            with_scheme!(s, S => parsed::<S>(&vec![fill; S::P.ek_len()], &m, t))
        },
    );
    let dense = run.pick(4000, 150_000);
    run.explore(
        "dense sequence",
        "3 sets x the first N of a fixed SHAKE256-derived sequence of (key generation seed, message)",
        3 * dense,
        |i, t| {
            let b: [u8; 96] = stream(&format!("C02 dense {}", i / 3));
            with_scheme!(i % 3, S => {
                let (_, ek) = S::gen_det(b[..32].try_into().unwrap(), b[32..64].try_into().unwrap());
                let raw = S::ek_bytes(&ek);
                one::<S>(&ek, &raw, b[64..].try_into().unwrap(), t)
            })
        },
    );
}
