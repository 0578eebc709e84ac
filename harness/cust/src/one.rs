//! The exploration of one parameter set, the same for all of them.
use crate::scheme::*;
use crate::sets;
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::mlkem::{self, Params};
use vlib::rng::stream;

pub struct Face {
    pub p: Params,
    pub sizes: fn() -> (usize, usize, usize, usize),
    pub keys: fn(&[u8; 32], &[u8; 32], usize) -> (Vec<u8>, Vec<u8>, Vec<u8>),
    pub enc: fn(&[u8], &[u8; 32], usize) -> (Vec<u8>, [u8; 32]),
    pub dec: fn(&[u8], &[u8]) -> [u8; 32],
    pub round: fn(&[u8], &[u8]) -> (Vec<u8>, Vec<u8>, Vec<u8>, bool),
    /// exchange without leaving the objects: generate, encapsulate, decapsulate
    pub exchange: fn(&[u8; 32], &[u8; 32], &[u8; 32]) -> (Vec<u8>, [u8; 32], [u8; 32]),
}

impl Face {
    pub const fn of<S: Scheme>() -> Face {
        Face {
            p: S::P,
            sizes: S::sizes,
            keys: |d, z, how| {
                let (dk, ek) = if how == 0 { S::gen_det(d, z) } else { S::gen_rng(&mut Tape(&[&d[..], &z[..]].concat())) };
                (S::ek_bytes(&ek), S::dk_bytes(&dk), S::ek_bytes(S::ek_of(&dk)))
            },
            enc: |ek, m, how| {
                let ek = S::ek_parse(ek);
                if how == 0 { S::enc_det(&ek, m) } else { S::enc_rng(&ek, &mut Tape(m)) }
            },
            dec: |dk, c| S::dec(&S::dk_parse(dk), c),
            round: |ek, dk| {
                let (e, d) = (S::ek_parse(ek), S::dk_parse(dk));
                let same = e.clone() == e && d.clone() == d && S::ek_parse(&S::ek_bytes(&e)) == e && S::dk_parse(&S::dk_bytes(&d)) == d;
                (S::ek_bytes(&e), S::dk_bytes(&d), S::ek_bytes(S::ek_of(&d)), same)
            },
            exchange: |d, z, m| {
                let (dk, ek) = S::gen_det(d, z);
                let (c, k) = S::enc_det(&ek, m);
                let k2 = S::dec(&dk, &c);
                (c, k, k2)
            },
        }
    }
}

/// A short alphabet of 32-byte strings: fills, then one set bit of each byte, then derived strings.
fn word(i: u64, label: &str) -> [u8; 32] {
    match i {
        0 => [0; 32],
        1 => [0xff; 32],
        2..=33 => {
            let mut o = [0; 32];
            o[i as usize - 2] = 1 << (i % 8);
            o
        }
        _ => stream(&format!("C22 {label} {i}")),
    }
}

fn derive(f: &Face, d: &[u8; 32], z: &[u8; 32], t: &mut Tally) -> Outcome {
    let (ek, dk) = mlkem::keygen(&f.p, d, z);
    for how in 0..2 {
        let (e, k, inner) = (f.keys)(d, z, how);
        let n = f.p.name();
        expect_eq("ek", &format!("{n}: encapsulation key"), &e, &ek)?;
        expect_eq("dk", &format!("{n}: decapsulation key"), &k, &dk)?;
        expect_eq("ek-of-dk", &format!("{n}: encapsulation key of the decapsulation key"), &inner, &ek)?;
        t.ops(1);
        t.trace();
    }
    t.outcome(&ek);
    t.sample(|| format!("{} d={} -> ek {}", f.p.name(), vlib::hex(d), vlib::brief(&ek)));
    Ok(())
}

fn send(f: &Face, ek: &[u8], m: &[u8; 32], t: &mut Tally) -> Outcome {
    let (c, k) = mlkem::encaps(&f.p, &mlkem::canonical_ek(&f.p, ek), m);
    for how in 0..2 {
        let (c1, k1) = (f.enc)(ek, m, how);
        expect_eq("ciphertext", &format!("{}: ciphertext for m={}", f.p.name(), vlib::hex(m)), &c1, &c)?;
        expect_eq("key", &format!("{}: shared key for m={}", f.p.name(), vlib::hex(m)), &k1, &k)?;
        t.ops(1);
        t.trace();
    }
    t.outcome(&c);
    t.sample(|| format!("{} m={} -> c {}", f.p.name(), vlib::hex(m), vlib::brief(&c)));
    Ok(())
}

fn receive(f: &Face, dk: &[u8], c: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let got = (f.dec)(dk, c);
    let (want, acc) = mlkem::decaps_ex(&f.p, &mlkem::canonical_dk(&f.p, dk), c);
    t.ops(1);
    t.trace();
    t.outcome(&want);
    t.sample(|| format!("{} {} -> {}", f.p.name(), what(), if acc { "accepted" } else { "rejected" }));
    expect_eq(if acc { "valid-rejected" } else { "wrong-rejection-value" }, &format!("{}: {}", f.p.name(), what()), &got, &want)
}

fn pattern(i: u64, len: usize, fill: &[u8]) -> Vec<u8> {
    (0..len)
        .map(|x| match i {
            0 => 0,
            1 => 0xff,
            2 => [0x00, 0x1d, 0xd0][x % 3],
            3 => [0x01, 0x1d, 0xd0][x % 3],
            4 => x as u8,
            5 => 0x55,
            6 => fill[x % fill.len()],
            _ => fill[(x * 7 + 3) % fill.len()] ^ (x >> 8) as u8,
        })
        .collect()
}
const PATTERNS: u64 = 8;

pub fn run(run: &mut Run) {
    let faces = &sets::faces();
    let n = faces.len() as u64;
    let noise: [u8; 997] = stream("C22 patterns");
    let noise = &noise;
    struct Base {
        ek: Vec<u8>,
        dk: Vec<u8>,
        ct: Vec<u8>,
    }
    let bases: Vec<Base> = faces
        .iter()
        .map(|f| {
            let s: [u8; 96] = stream(&format!("C22 base {}", f.p.name()));
            let (ek, dk) = mlkem::keygen(&f.p, &s[..32], &s[32..64]);
            let (ct, _) = mlkem::encaps(&f.p, &ek, &s[64..]);
            Base { ek, dk, ct }
        })
        .collect();
    let bases = &bases;
    run.note(format!("{n} parameter sets: {}", faces.iter().map(|f| format!("{}{}{}/{}-{}", f.p.k, f.p.eta1, f.p.eta2, f.p.du, f.p.dv)).collect::<Vec<_>>().join(" ")));

    run.explore("sizes", "every set: key, ciphertext and shared-key sizes by the types, and of actual encodings", n, |i, t| {
        let (f, b) = (&faces[i as usize], &bases[i as usize]);
        let s = (f.sizes)();
        let want = (f.p.ek_len(), f.p.dk_len(), f.p.ct_len(), 32);
        t.trace();
        t.sample(|| format!("{}: {s:?}", f.p.name()));
        vlib::ensure!(s == want, "sizes", "{}: sizes {s:?}, the parameters imply {want:?}", f.p.name());
        vlib::ensure!(s == (b.ek.len(), b.dk.len(), b.ct.len(), 32), "sizes", "{}: {s:?}", f.p.name());
        Ok(())
    });
    let w = 40u64;
    run.explore("key generation", "every set x seeds d and z from a structured alphabet", n * w * 2, |i, t| {
        let (f, j) = (&faces[(i % n) as usize], i / n);
        let (a, b) = if j % 2 == 0 { (word(j / 2 * 5 % 40, "d"), word(35, "z")) } else { (word(36, "d"), word(j / 2 * 5 % 40, "z")) };
        derive(f, &a, &b, t)
    });
    run.explore("encapsulation", "every set x messages from a structured alphabet x {generated key, reduced and unreduced patterned keys}", n * w * 3, |i, t| {
        let (s, j) = ((i % n) as usize, i / n);
        let f = &faces[s];
        let m = word(j / 3 * 5 % 40, "m");
        let ek = match j % 3 {
            0 => bases[s].ek.clone(),
            x => pattern((j / 3 + 3 * x) % PATTERNS, f.p.ek_len(), noise),
        };
        send(f, &ek, &m, t)
    });
    run.explore("exchange", "every set x seeds x messages, on live objects: generate, encapsulate, decapsulate (with a lossy set the model says when decryption fails)", n * w * 2, |i, t| {
        let (f, j) = (&faces[(i % n) as usize], i / n);
        let (d, z, m) = (word(34 + j % 9, "d"), word(34 + j % 7, "z"), word(j, "m"));
        let (ek, dk) = mlkem::keygen(&f.p, &d, &z);
        let (c, k) = mlkem::encaps(&f.p, &ek, &m);
        let (want, acc) = mlkem::decaps_ex(&f.p, &dk, &c);
        let (c1, k1, k2) = (f.exchange)(&d, &z, &m);
        t.ops(3);
        t.trace();
        t.outcome(&k2);
        t.sample(|| format!("{}: {}", f.p.name(), if acc { "recovered" } else { "decryption failure, rejected as the model does" }));
        expect_eq("ciphertext", &format!("{}: ciphertext", f.p.name()), &c1, &c)?;
        expect_eq("key", &format!("{}: sender's key", f.p.name()), &k1, &k)?;
        expect_eq(if acc { "valid-rejected" } else { "wrong-rejection-value" }, &format!("{}: receiver's key", f.p.name()), &k2, &want)
    });
    // every byte of an honest ciphertext, altered
    let ends: Vec<u64> = bases.iter().scan(0, |a, b| { *a += b.ct.len() as u64; Some(*a) }).collect();
    let ends = &ends;
    let kinds = if cfg!(feature = "deep") { 2 } else { run.pick(2u64, 8) };
    run.explore("altered ciphertexts", "every set x every byte of an honest ciphertext x two single flipped bits (thorough, for the 51 sets: each of the 8 bits): the exact FIPS 203 value", ends[ends.len() - 1] * kinds, |i, t| {
        let (bit, at) = (i % kinds, i / kinds);
        let s = ends.partition_point(|&e| e <= at);
        let pos = (at - if s == 0 { 0 } else { ends[s - 1] }) as usize;
        let bit = if kinds == 2 { (pos % 8) as u64 ^ (bit * 5) } else { bit };
        let mut c = bases[s].ct.clone();
        c[pos] ^= 1 << bit;
        receive(&faces[s], &bases[s].dk, &c, || format!("bit {bit} of ciphertext byte {pos} flipped"), t)
    });
    run.explore("patterned keys and ciphertexts", "every set x all pairs of byte patterns for the decapsulation key and the ciphertext", n * PATTERNS * PATTERNS, |i, t| {
        let (f, j) = (&faces[(i % n) as usize], i / n);
        let dk = pattern(j % PATTERNS, f.p.dk_len(), noise);
        let c = pattern(j / PATTERNS, f.p.ct_len(), noise);
        receive(f, &dk, &c, || format!("key pattern {} with ciphertext pattern {}", j % PATTERNS, j / PATTERNS), t)
    });
    run.explore("encodings", "every set x {generated, patterned, unreduced} keys: re-serialising gives the reduced encoding, clones and re-parsed keys are equal", n * (PATTERNS + 1), |i, t| {
        let (s, j) = ((i % n) as usize, i / n);
        let f = &faces[s];
        let (ek, dk) = if j == PATTERNS { (bases[s].ek.clone(), bases[s].dk.clone()) } else { (pattern(j, f.p.ek_len(), noise), pattern(j, f.p.dk_len(), noise)) };
        let (e, d, inner, same) = (f.round)(&ek, &dk);
        t.ops(2);
        t.trace();
        t.outcome(&e);
        let name = f.p.name();
        let cd = mlkem::canonical_dk(&f.p, &dk);
        expect_eq("ek", &format!("{name}: re-serialised encapsulation key"), &e, &mlkem::canonical_ek(&f.p, &ek))?;
        expect_eq("dk", &format!("{name}: re-serialised decapsulation key"), &d, &cd)?;
        expect_eq("ek-of-dk", &format!("{name}: encapsulation key within"), &inner, &cd[384 * f.p.k..768 * f.p.k + 32])?;
        vlib::ensure!(same, "equality", "{name}: a clone or a re-parsed key differs from its original");
        Ok(())
    });
}
