//! C01: key generation = FIPS 203 on structured alphabets of seed pairs.
use crate::scheme::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::mlkem;
use vlib::rng::{b32, b32_len, stream};

pub fn one<S: Scheme>(d: &[u8; 32], z: &[u8; 32], t: &mut Tally, seen: &Coverage) -> Outcome {
    let (ek_m, dk_m) = mlkem::keygen(&S::P, d, z);
    let what = |s: &str| format!("{}: {s} for d={} z={}", S::P.name(), vlib::hex(d), vlib::hex(z));
    let (dk, ek) = S::gen_det(d, z);
    expect_eq("ek", &what("encapsulation key"), &S::ek_bytes(&ek), &ek_m)?;
    expect_eq("dk", &what("decapsulation key"), &S::dk_bytes(&dk), &dk_m)?;
    expect_eq("ek-of-dk", &what("encapsulation key obtained from the decapsulation key"), &S::ek_bytes(S::ek_of(&dk)), &ek_m)?;
    vlib::ensure!(*S::ek_of(&dk) == ek, "ek-of-dk-object", "{}", what("encapsulation keys beside and inside the decapsulation key differ as objects"));
    let seeds = [&d[..], &z[..]].concat();
    let (dk2, ek2) = S::gen_rng(&mut Tape(&seeds));
    expect_eq("ek-rng", &what("encapsulation key (generator path)"), &S::ek_bytes(&ek2), &ek_m)?;
    expect_eq("dk-rng", &what("decapsulation key (generator path)"), &S::dk_bytes(&dk2), &dk_m)?;
    t.ops(2);
    t.trace();
    t.trace();
    t.outcome(&ek_m);
    seen.poly(&mlkem::byte_decode(12, &ek_m[..384]));
    t.sample(|| format!("{} d={} z={} -> ek {} dk {}", S::P.name(), vlib::hex(d), vlib::hex(z), vlib::brief(&ek_m), vlib::brief(&dk_m)));
    Ok(())
}

/// Which (position, value) pairs of a polynomial have been produced.
pub struct Coverage(Vec<AtomicU64>);
impl Coverage {
    pub fn new() -> Self {
        Coverage((0..256 * 3329 / 64 + 1).map(|_| AtomicU64::new(0)).collect())
    }
    pub fn poly(&self, f: &mlkem::Poly) {
        for (i, &v) in f.iter().enumerate() {
            let b = i * 3329 + v as usize;
            self.0[b / 64].fetch_or(1 << (b % 64), Relaxed);
        }
    }
    pub fn count(&self) -> u64 {
        self.0.iter().map(|x| x.load(Relaxed).count_ones() as u64).sum()
    }
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bg: [u8; 32] = stream("C01 background");
    let other: [u8; 32] = stream("C01 fixed");
    let seen = Coverage::new();
    let n = b32_len(true);
    run.explore(
        "seed d alphabet",
        "3 sets x (256 constant fills, every value at every byte over zero and over dense backgrounds) of d, z fixed",
        3 * n,
        |i, t| {
            let d = b32(i / 3, &bg);
            with_scheme!(i % 3, S => one::<S>(&d, &other, t, &seen))
        },
    );
    let nz = run.pick(b32_len(false), b32_len(true));
    run.explore(
        "seed z alphabet",
        "3 sets x the same alphabet of z, d fixed",
        3 * nz,
        |i, t| {
            let z = b32(i / 3, &bg);
            with_scheme!(i % 3, S => one::<S>(&other, &z, t, &seen))
        },
    );
    let step = run.pick(15, 1);
    let m = 255 / step + 1;
    run.explore(
        "pairs of fills (d, z)",
        "3 sets x constant fills of d x constant fills of z, plus d = z over the whole alphabet (quick: every 15th fill)",
        3 * m * m + 3 * b32_len(false),
        |i, t| {
            let s = i % 3;
            let j = i / 3;
            let (d, z) = if j < m * m {
                ([(j / m * step) as u8; 32], [(j % m * step) as u8; 32])
            } else {
                let x = b32(j - m * m, &bg);
                (x, x)
            };
            with_scheme!(s, S => one::<S>(&d, &z, t, &seen))
        },
    );
    let dense = run.pick(8000, 200_000);
    run.explore(
        "dense seed sequence",
        "3 sets x the first N pairs of a fixed SHAKE256-derived sequence of (d, z)",
        3 * dense,
        |i, t| {
            let b: [u8; 64] = stream(&format!("C01 dense {}", i / 3));
            with_scheme!(i % 3, S => one::<S>(b[..32].try_into().unwrap(), b[32..].try_into().unwrap(), t, &seen))
        },
    );
    run.note(format!(
        "(position, value) pairs of the first public polynomial produced during the run: {} of {}",
        seen.count(),
        256 * 3329
    ));
}
