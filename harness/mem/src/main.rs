//! C24: no operation takes memory from the heap, and each needs as much stack for one input as for
//! another.
mod measure;
use measure::{measure, self_check};
use kem::{Decapsulate, Encapsulate};
use ml_kem::kem::{DecapsulationKey, EncapsulationKey, Kem};
use ml_kem::{EncapsulateDeterministic, EncodedSizeUser, KemCore};
use rand_core::{CryptoRng, RngCore};
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::Mutex;
use vlib::engine::{Outcome, Run, Tally};
use vlib::keccak;

/// A bound on how much further an operation's stack may reach for one input than for the reference input.
const SLACK: usize = 1024;

/// Gives back a byte string, then bytes counting up; never fails.
#[derive(Clone)]
struct Tape {
    bytes: [u8; 264],
    len: usize,
    at: usize,
}
impl Tape {
    fn new(b: &[u8]) -> Tape {
        let mut t = Tape { bytes: [0; 264], len: b.len(), at: 0 };
        t.bytes[..b.len()].copy_from_slice(b);
        t
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            *d = if self.at < self.len { self.bytes[self.at] } else { self.at as u8 };
            self.at += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape {}

/// The stack each operation needs for its reference input.
static REFERENCE: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);

/// Measures `f`; the first measurement at a site of this programme (made before the exploration) is the reference.
fn judge(site: u32, name: &str, what: &dyn Fn() -> String, t: &mut Tally, mut f: impl FnMut()) -> Outcome {
    let u = measure(&mut f);
    let reference = {
        let mut g = REFERENCE.lock().unwrap();
        let m = g.get_or_insert_with(HashMap::new);
        *m.entry(format!("{site} {name}")).or_insert(u.stack)
    };
    t.ops(1);
    t.trace();
    t.outcome(&(u.stack as u64).to_le_bytes());
    t.sample(|| format!("{name}, {}: {} bytes of stack, no allocation", what(), u.stack));
    vlib::ensure!(u.allocations == 0, "heap", "{name}, {}: {} allocations", what(), u.allocations);
    vlib::ensure!(u.stack <= reference + SLACK, "stack", "{name}, {}: {} bytes of stack, {reference} for the reference input", what(), u.stack);
    Ok(())
}

fn pattern(i: u64, len: usize) -> Vec<u8> {
    match i {
        0..=7 => vec![[0u8, 0xff, 0x55, 0xaa, 0x0d, 0xd0, 0x80, 0x7f][i as usize]; len],
        8 => (0..len).map(|x| x as u8).collect(),
        9 => (0..len).map(|x| (255 - x % 256) as u8).collect(),
        10 => (0..len).map(|x| [0x00, 0x1d, 0xd0][x % 3]).collect(), // coefficients around q
        11 => (0..len).map(|x| [0x01, 0x1d, 0xd0][x % 3]).collect(),
        12 => (0..len).map(|x| if x % 2 == 0 { 0 } else { 0xff }).collect(),
        _ => (0..len).map(|x| if x < len / 2 { 0 } else { 0xff }).collect(),
    }
}
const PATTERNS: u64 = 14;

/// Fills, every single bit, then a fixed derived sequence.
fn word(i: u64) -> [u8; 32] {
    match i {
        0..=255 => [i as u8; 32],
        256..=511 => {
            let mut b = [0; 32];
            b[(i as usize - 256) / 8] = 1 << (i % 8);
            b
        }
        _ => keccak::sha3_256(&[b"C24", &i.to_le_bytes()]),
    }
}

macro_rules! mlkem {
    ($name:ident, $p:ty, $label:expr) => {
        mod $name {
            use super::*;
            type K = Kem<$p>;
            type Dk = DecapsulationKey<$p>;
            type Ek = EncapsulationKey<$p>;
            fn op(n: &str) -> String {
                format!("{} {n}", $label)
            }
            pub fn seeds(i: u64, t: &mut Tally) -> Outcome {
                let what = || format!("seeds and message from word {i}");
                let (d, z, m) = (word(i), word(i / 2 * 7 % 512), word(i * 3 % 1024));
                let tape = Tape::new(&[d, z].concat());
                judge(1, &op("key generation"), &what, t, || drop(black_box(K::generate(&mut black_box(tape.clone())))))?;
                judge(2, &op("deterministic key generation"), &what, t, || drop(black_box(K::generate_deterministic(&d.into(), &z.into()))))?;
                let (dk, ek) = K::generate_deterministic(&d.into(), &z.into());
                let tape = Tape::new(&m);
                judge(3, &op("encapsulation"), &what, t, || drop(black_box(ek.encapsulate(&mut black_box(tape.clone())))))?;
                judge(4, &op("deterministic encapsulation"), &what, t, || drop(black_box(ek.encapsulate_deterministic(&m.into()))))?;
                let (c, _) = ek.encapsulate_deterministic(&m.into()).unwrap();
                judge(5, &op("decapsulation"), &|| format!("honest ciphertext, {}", what()), t, || drop(black_box(dk.decapsulate(&c))))?;
                let mut c = c;
                c[i as usize % 512] ^= 1 << (i % 8);
                judge(6, &op("decapsulation"), &|| format!("altered ciphertext, {}", what()), t, || drop(black_box(dk.decapsulate(&c))))
            }
            pub fn patterns(i: u64, t: &mut Tally) -> Outcome {
                let (a, b, c) = (i % PATTERNS, i / PATTERNS % PATTERNS, i / PATTERNS / PATTERNS);
                let what = || format!("decapsulation key pattern {a}, encapsulation key pattern {b}, ciphertext pattern {c}");
                let kb = ml_kem::Encoded::<Dk>::try_from(&pattern(a, std::mem::size_of::<ml_kem::Encoded<Dk>>())[..]).unwrap();
                let eb = ml_kem::Encoded::<Ek>::try_from(&pattern(b, std::mem::size_of::<ml_kem::Encoded<Ek>>())[..]).unwrap();
                let cb = ml_kem::Ciphertext::<K>::try_from(&pattern(c, std::mem::size_of::<ml_kem::Ciphertext<K>>())[..]).unwrap();
                judge(7, &op("parsing a decapsulation key"), &what, t, || drop(black_box(Dk::from_bytes(&kb))))?;
                judge(8, &op("parsing an encapsulation key"), &what, t, || drop(black_box(Ek::from_bytes(&eb))))?;
                let (dk, ek) = (Dk::from_bytes(&kb), Ek::from_bytes(&eb));
                judge(9, &op("serialising a decapsulation key"), &what, t, || drop(black_box(dk.as_bytes())))?;
                judge(10, &op("serialising an encapsulation key"), &what, t, || drop(black_box(ek.as_bytes())))?;
                judge(11, &op("cloning and comparing keys"), &what, t, || {
                    let (d, e) = (dk.clone(), ek.clone());
                    black_box((d == dk, e == ek, dk.encapsulation_key() == &ek));
                })?;
                let m: [u8; 32] = pattern(c, 32).try_into().unwrap();
                judge(12, &op("decapsulation"), &what, t, || drop(black_box(dk.decapsulate(&cb))))?;
                judge(13, &op("deterministic encapsulation"), &what, t, || drop(black_box(ek.encapsulate_deterministic(&m.into()))))
            }
        }
    };
}
mlkem!(a, ml_kem::MlKem512Params, "ML-KEM-512");
mlkem!(b, ml_kem::MlKem768Params, "ML-KEM-768");
mlkem!(c, ml_kem::MlKem1024Params, "ML-KEM-1024");

fn xwing(i: u64, t: &mut Tally) -> Outcome {
    use x_wing::*;
    let what = || format!("seed and randomness from word {i}");
    let sp = vlib::x25519::special_points();
    let (s, r1, r2) = (word(i), word(i * 5 % 1024), word(i * 3 % 512));
    let tape = Tape::new(&s);
    judge(14, "X-Wing key generation", &what, t, || drop(black_box(generate_key_pair(&mut black_box(tape.clone())))))?;
    let dk = x_wing::DecapsulationKey::from(s);
    judge(15, "X-Wing derivation of the encapsulation key", &what, t, || drop(black_box(dk.encapsulation_key())))?;
    let ek = dk.encapsulation_key();
    let tape = Tape::new(&[r1, r2].concat());
    judge(16, "X-Wing encapsulation", &what, t, || drop(black_box(ek.encapsulate(&mut black_box(tape.clone())))))?;
    let (c, _) = ek.encapsulate(&mut tape.clone()).unwrap();
    judge(17, "X-Wing decapsulation", &what, t, || drop(black_box(dk.decapsulate(&c))))?;
    // a patterned or special counterpart
    let (a, b) = (i % PATTERNS, i / PATTERNS % PATTERNS);
    let mut eb: [u8; 1216] = pattern(a, 1216).try_into().unwrap();
    let mut cb: [u8; 1120] = pattern(b, 1120).try_into().unwrap();
    if i % 3 > 0 {
        eb[1184..].copy_from_slice(&sp[i as usize % sp.len()].1);
        cb[1088..].copy_from_slice(&sp[i as usize / 3 % sp.len()].1);
    }
    let what = || format!("seed from word {i}, encapsulation key pattern {a}, ciphertext pattern {b}");
    judge(18, "X-Wing parsing an encapsulation key", &what, t, || drop(black_box(x_wing::EncapsulationKey::from(&eb))))?;
    judge(19, "X-Wing parsing a ciphertext", &what, t, || drop(black_box(Ciphertext::from(&cb))))?;
    let (e, c) = (x_wing::EncapsulationKey::from(&eb), Ciphertext::from(&cb));
    judge(20, "X-Wing encapsulation", &what, t, || drop(black_box(e.encapsulate(&mut black_box(tape.clone())))))?;
    judge(21, "X-Wing decapsulation", &what, t, || drop(black_box(dk.decapsulate(&c))))?;
    judge(22, "X-Wing serialising and comparing", &what, t, || {
        black_box((e.as_bytes(), c.as_bytes(), *dk.as_bytes(), e.clone() == e, c.clone() == c, dk.clone()));
    })
}

fn dh<D: dhkem::DhKem>(name: &str, i: u64, t: &mut Tally) -> Outcome {
    let what = || format!("secrets from words {i}, {}", i * 3 % 1024);
    // the draw for the peer's key, the own key's and the ephemeral one; a fill of 0xff is redrawn on some curves
    let first = Tape::new(&[word(i), word(i * 7 % 1024), word(i * 11 % 1024)].concat());
    let second = Tape::new(&[word(i * 3 % 1024), word(i * 13 % 1024), word(i * 5 % 1024)].concat());
    judge(23, &format!("{name} key generation"), &what, t, || drop(black_box(D::random_keypair(&mut black_box(first.clone())))))?;
    let (dk, ek) = D::random_keypair(&mut first.clone());
    judge(24, &format!("{name} encapsulation"), &what, t, || drop(black_box(ek.encapsulate(&mut black_box(second.clone())))))?;
    let (c, _) = match ek.encapsulate(&mut second.clone()) {
        Ok(x) => x,
        Err(_) => return vlib::engine::fail("refused", "encapsulation returns an error"),
    };
    judge(25, &format!("{name} decapsulation"), &what, t, || drop(black_box(dk.decapsulate(&c))))
}

/// A stream with a run of rejected candidates: `run` of them after `start` accepted ones.
#[cfg(kems_verif)]
struct Stream {
    start: u64,
    run: u64,
    shape: usize,
    at: u64,
}
#[cfg(kems_verif)]
impl Stream {
    fn byte(&self, i: u64) -> u8 {
        // candidates are 12 bits each, least significant first
        let value = |c: u64| -> u16 {
            if c >= self.start && c < self.start + self.run {
                [4095, 3329, 3329 + (c % 700) as u16][self.shape]
            } else {
                (c % 3329) as u16
            }
        };
        let (a, b) = (value(i / 3 * 2), value(i / 3 * 2 + 1));
        match i % 3 {
            0 => a as u8,
            1 => (a >> 8) as u8 | (b << 4) as u8,
            _ => (b >> 4) as u8,
        }
    }
}
#[cfg(kems_verif)]
impl sha3::digest::XofReader for Stream {
    fn read(&mut self, buffer: &mut [u8]) {
        for b in buffer {
            *b = self.byte(self.at);
            self.at += 1;
        }
    }
}
/// Rejection runs of every length after a number of accepted candidates.
#[cfg(kems_verif)]
fn rejections(i: u64, t: &mut Tally) -> Outcome {
    const STARTS: [u64; 8] = [0, 1, 2, 63, 64, 65, 200, 255];
    let (start, shape, run) = (STARTS[i as usize % 8], (i / 8 % 3) as usize, i / 24);
    let what = || format!("{run} candidates rejected after {start} accepted ones, shape {shape}");
    judge(30, "sampling from a stream", &what, t, || {
        black_box(ml_kem::verif::hooks::sample_uniform(&mut Stream { start, run, shape, at: 0 }));
    })
}

type Item = fn(u64, &mut Tally) -> Outcome;
fn dh_items() -> [(&'static str, Item); 5] {
    [
        ("X25519", |i, t| dh::<dhkem::X25519Kem>("X25519", i, t)),
        ("secp256k1", |i, t| dh::<dhkem::Secp256k1Kem>("secp256k1", i, t)),
        ("P-256", |i, t| dh::<dhkem::NistP256Kem>("P-256", i, t)),
        ("P-384", |i, t| dh::<dhkem::NistP384Kem>("P-384", i, t)),
        ("P-521", |i, t| dh::<dhkem::NistP521Kem>("P-521", i, t)),
    ]
}

fn main() {
    let mut run = Run::from_args();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            self_check();
            run.note("the observation was first shown to see an allocation and a deeper stack, and to repeat itself");
            // references, after everything that is set up on first use has been
            for _ in 0..2 {
                *REFERENCE.lock().unwrap() = None;
                let mut t = Tally::default();
                let _ = (a::seeds(600, &mut t), a::patterns(8, &mut t), b::seeds(600, &mut t), b::patterns(8, &mut t), c::seeds(600, &mut t), c::patterns(8, &mut t), xwing(600, &mut t));
                for (_, f) in dh_items() {
                    let _ = f(600, &mut t);
                }
            }
            let sets: [(&str, Item, Item); 3] = [("ML-KEM-512", a::seeds, a::patterns), ("ML-KEM-768", b::seeds, b::patterns), ("ML-KEM-1024", c::seeds, c::patterns)];
            for (n, s, p) in sets {
                run.explore(&format!("{n} seeds and messages"), "fills, every single bit, and a fixed derived sequence as seeds and messages: key generation, encapsulation, decapsulation of an honest and an altered ciphertext", run.pick(12_000, 400_000), s);
                run.explore(&format!("{n} patterns"), "all triples of patterns for decapsulation key, encapsulation key and ciphertext: parse, serialise, clone, compare, decapsulate, encapsulate", PATTERNS * PATTERNS * PATTERNS, p);
            }
            #[cfg(kems_verif)]
            {
                let _ = rejections(0, &mut Tally::default());
                run.explore("rejected candidates", "rejection runs of every length up to a bound after {0, 1, 2, 63, 64, 65, 200, 255} accepted candidates, with three shapes of rejected value: the sampler on a scripted stream", run.pick(24 * 1500, 24 * 20_000), rejections);
            }
            run.explore("X-Wing", "fills, every single bit, and a fixed derived sequence as seeds and randomness; patterned and special counterparts: every operation", run.pick(6_000, 200_000), xwing);
            for (n, f) in dh_items() {
                run.explore(&format!("DH-KEM {n}"), "fills, every single bit, and a fixed derived sequence as secrets (some of which have to be redrawn): key generation, encapsulation, decapsulation", run.pick(1_500, 50_000), f);
            }
            run.finish()
        })
        .unwrap()
        .join()
        .unwrap();
}
