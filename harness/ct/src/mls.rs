use crate::worker::{Subject, Tape};
use crate::{explore, Input};
use ml_kem::kem::{Decapsulate, DecapsulationKey, Encapsulate};
use ml_kem::{Ciphertext, EncodedSizeUser, KemCore};
use std::hint::black_box;
use vlib::engine::Run;
use vlib::mlkem::{self, Params};
use vlib::rng::stream;

// ---- what is executed

macro_rules! scheme {
    ($m:ident, $kem:ty, $set:ty) => {
        mod $m {
            use super::*;
            type Dk = DecapsulationKey<$set>;
            type Ek = <$kem as KemCore>::EncapsulationKey;
            /// input: decapsulation key, ciphertext
            #[derive(Default)]
            pub struct WithKey {
                pub what: u8,
                raw: ml_kem::Encoded<Dk>,
                dk: Option<Dk>,
                ct: Ciphertext<$kem>,
            }
            impl Subject for WithKey {
                fn set(&mut self, input: &[u8]) {
                    let (a, b) = input.split_at(self.raw.len());
                    self.raw.copy_from_slice(a);
                    self.ct.copy_from_slice(b);
                    self.dk = Some(Dk::from_bytes(&self.raw));
                }
                fn run(&mut self) {
                    match self.what {
                        0 => {
                            black_box(self.dk.as_ref().unwrap().decapsulate(&self.ct).unwrap());
                        }
                        1 => {
                            black_box(Dk::from_bytes(&self.raw));
                        }
                        _ => {
                            black_box(self.dk.as_ref().unwrap().as_bytes());
                        }
                    }
                }
            }
            /// input: encapsulation key, message
            pub struct Encaps {
                pub ek: Option<Ek>,
                pub tape: Tape,
            }
            impl Subject for Encaps {
                fn set(&mut self, input: &[u8]) {
                    let (a, b) = input.split_at(input.len() - 32);
                    let mut raw: ml_kem::Encoded<Ek> = Default::default();
                    raw.copy_from_slice(a);
                    self.ek = Some(Ek::from_bytes(&raw));
                    self.tape.load(b);
                }
                fn run(&mut self) {
                    self.tape.at = 0;
                    black_box(self.ek.as_ref().unwrap().encapsulate(&mut self.tape).unwrap());
                }
            }
            /// input: d, z
            pub struct Keygen(pub Tape);
            impl Subject for Keygen {
                fn set(&mut self, input: &[u8]) {
                    self.0.load(input);
                }
                fn run(&mut self) {
                    self.0.at = 0;
                    black_box(<$kem>::generate(&mut self.0));
                }
            }
            pub fn subject(what: u8) -> Box<dyn Subject> {
                match what {
                    0..=2 => Box::new(WithKey { what, ..Default::default() }),
                    3 => Box::new(Encaps { ek: None, tape: Tape::new() }),
                    _ => Box::new(Keygen(Tape::new())),
                }
            }
        }
    };
}
scheme!(s512, ml_kem::MlKem512, ml_kem::MlKem512Params);
scheme!(s768, ml_kem::MlKem768, ml_kem::MlKem768Params);
scheme!(s1024, ml_kem::MlKem1024, ml_kem::MlKem1024Params);

pub fn subject(op: u8) -> Box<dyn Subject> {
    match op / 10 {
        0 => s512::subject(op % 10),
        1 => s768::subject(op % 10),
        _ => s1024::subject(op % 10),
    }
}

// ---- on what

/// 32-byte strings: fills, single bits, every length of a zero prefix. Index 0 is dense.
pub fn words() -> u64 {
    1 + 8 + 256 + 32
}
pub fn word(i: u64) -> [u8; 32] {
    match i {
        0 => stream("C21 word"),
        1..=8 => [[0, 0xff, 0x55, 0xaa, 1, 0x80, 0x0f, 0x7f][i as usize - 1]; 32],
        9..=264 => {
            let mut b = [0; 32];
            b[(i as usize - 9) / 8] = 1 << ((i - 9) % 8);
            b
        }
        _ => {
            let mut b = [0xff; 32];
            b[..(i as usize - 264)].fill(0);
            b
        }
    }
}

fn pack12(v: impl Fn(usize) -> u16, n: usize) -> Vec<u8> {
    (0..n / 2)
        .flat_map(|i| {
            let (a, b) = (v(2 * i), v(2 * i + 1));
            [a as u8, (a >> 8) as u8 | (b << 4) as u8, (b >> 4) as u8]
        })
        .collect()
}

fn one(run: &mut Run, set: u8, p: Params, key: &str) {
    let s: [u8; 64] = stream(&format!("C21 {key}"));
    let (ek, dk) = mlkem::keygen(&p, &s[..32], &s[32..]);
    let (n, k) = (256 * p.k, 384 * p.k);
    let honest = mlkem::encaps(&p, &ek, &word(0)).0;
    let mut altered = honest.clone();
    altered[3] ^= 4;
    let public = &dk[k..dk.len() - 32];
    let z0 = &dk[dk.len() - 32..];
    let input = |what: String, s: &[u8], z: &[u8], c: &[u8]| Input { what, bytes: [s, public, z, c].concat() };

    let mut keys = vec![input("the honest key and ciphertext".into(), &dk[..k], z0, &honest)];
    for (cname, c) in [("honest", &honest), ("altered", &altered)] {
        for v in [0, 1, 2, 1664, 1665, 3327, 3328, 3329, 4095] {
            keys.push(input(format!("secret coefficients all {v}, {cname} ciphertext"), &pack12(|_| v, n), z0, c));
        }
        keys.push(input(format!("secret a ramp, {cname} ciphertext"), &pack12(|i| (i * 13 % 3329) as u16, n), z0, c));
        for i in 0..words() {
            keys.push(input(format!("rejection seed {}, {cname} ciphertext", vlib::hex(&word(i))), &dk[..k], &word(i), c));
        }
    }
    let values: &[u16] = run.pick(&[0, 1, 1665, 3328], &[0, 1, 2, 832, 1664, 1665, 2496, 3327, 3328]);
    for i in 0..n {
        for &v in values {
            let s = dk[..k].chunks(384).flat_map(|b| mlkem::byte_decode(12, b)).collect::<Vec<u16>>();
            keys.push(input(format!("the honest secret with coefficient {i} replaced by {v}"), &pack12(|j| if i == j { v } else { s[j] }, n), z0, &honest));
        }
    }
    let mut cts = vec![];
    for i in 0..words() {
        cts.push((format!("honest ciphertext of message {}", vlib::hex(&word(i))), mlkem::encaps(&p, &ek, &word(i)).0));
    }
    for b in 0..=255 {
        cts.push((format!("ciphertext of bytes {b:#x}"), vec![b; honest.len()]));
    }
    for i in 0..honest.len() {
        for x in run.pick(&[0x01u8, 0x80, 0xff][..], &[1, 2, 4, 8, 16, 32, 64, 128, 255]) {
            let mut c = honest.clone();
            c[i] ^= x;
            cts.push((format!("ciphertext with byte {i} altered by {x:#x}"), c));
        }
    }
    for m in 2..=honest.len() {
        if m <= 9 || run.thorough() || m % 32 == 0 {
            let mut c = honest.clone();
            c.iter_mut().take(m).for_each(|x| *x ^= 0x80);
            cts.push((format!("ciphertext with its first {m} bytes altered"), c));
        }
    }
    let mut decaps: Vec<Input> = cts.iter().map(|(w, c)| input(w.clone(), &dk[..k], z0, c)).collect();
    let kn = keys.len();
    decaps.splice(0..0, keys);
    let name = format!("{} {key},", p.name());
    let op = |x| set * 10 + x;
    explore(run, &format!("{name} decapsulation"), "secret vectors, rejection seeds, honest and altered ciphertexts under one public key", op(0), 64, &decaps);
    explore(run, &format!("{name} parsing a decapsulation key"), "secret vectors and rejection seeds", op(1), 256, &decaps[..kn]);
    explore(run, &format!("{name} serialising a decapsulation key"), "secret vectors and rejection seeds", op(2), 256, &decaps[..kn]);
    let messages: Vec<Input> = (0..words()).map(|i| Input { what: format!("message {}", vlib::hex(&word(i))), bytes: [&ek[..], &word(i)].concat() }).collect();
    explore(run, &format!("{name} encapsulation"), "messages to one public key", op(3), 64, &messages);
    let seeds: Vec<Input> = (0..words()).map(|i| Input { what: format!("rejection seed {}", vlib::hex(&word(i))), bytes: [&s[..32], &word(i)].concat() }).collect();
    explore(run, &format!("{name} key generation"), "rejection seeds with one d", op(4), 64, &seeds);
}

pub fn run(run: &mut Run) {
    for key in run.pick(&["key 1", "key 2"][..], &["key 1", "key 2", "key 3", "key 4"]) {
        one(run, 0, mlkem::P512, key);
        one(run, 1, mlkem::P768, key);
        one(run, 2, mlkem::P1024, key);
    }
}
