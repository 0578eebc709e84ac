use crate::worker::{Subject, Tape};
use crate::{explore, Input};
use dhkem::*;
use kem::{Decapsulate, Encapsulate};
use std::hint::black_box;
use vlib::engine::Run;
use vlib::rng::stream;

macro_rules! curve {
    ($m:ident, $kem:ty) => {
        mod $m {
            use super::*;
            type Dk = <$kem as DhKem>::DecapsulatingKey;
            type Ek = <$kem as DhKem>::EncapsulatingKey;
            type Ct = <$kem as DhKem>::EncapsulatedKey;
            /// input: the scalar
            pub struct Decaps {
                dk: Option<Dk>,
                ct: Ct,
            }
            pub fn peer() -> (Ek, Ct) {
                let mut t = Tape::new();
                let (_, ek) = <$kem as DhKem>::random_keypair(&mut t);
                t.at = 0;
                let (ct, _) = ek.encapsulate(&mut t).unwrap();
                (ek, ct)
            }
            impl Subject for Decaps {
                fn set(&mut self, input: &[u8]) {
                    let mut t = Tape::new();
                    t.load(input);
                    self.dk = Some(<$kem as DhKem>::random_keypair(&mut t).0);
                }
                fn run(&mut self) {
                    let _ = black_box(self.dk.as_ref().unwrap().decapsulate(&self.ct));
                }
            }
            /// input: the ephemeral scalar
            pub struct Encaps {
                ek: Ek,
                tape: Tape,
            }
            impl Subject for Encaps {
                fn set(&mut self, input: &[u8]) {
                    self.tape.load(input);
                }
                fn run(&mut self) {
                    self.tape.at = 0;
                    let _ = black_box(self.ek.encapsulate(&mut self.tape));
                }
            }
            pub fn subject(encaps: bool) -> Box<dyn Subject> {
                let (ek, ct) = peer();
                if encaps { Box::new(Encaps { ek, tape: Tape::new() }) } else { Box::new(Decaps { dk: None, ct }) }
            }
        }
    };
}
curve!(x25519, X25519Kem);
curve!(k256, Secp256k1Kem);
curve!(p256, NistP256Kem);
curve!(p384, NistP384Kem);
curve!(p521, NistP521Kem);

pub fn subject(op: u8) -> Box<dyn Subject> {
    let e = op % 2 == 1;
    match op {
        40 | 41 => x25519::subject(e),
        42 | 43 => k256::subject(e),
        44 | 45 => p256::subject(e),
        46 | 47 => p384::subject(e),
        _ => p521::subject(e),
    }
}

pub fn run(run: &mut Run) {
    // secp256k1: its arithmetic (another crate's) is not constant at every optimisation level
    for (i, (name, len)) in [("X25519", 32), ("secp256k1", 32), ("P-256", 32), ("P-384", 48), ("P-521", 66)].into_iter().enumerate().filter(|x| x.0 != 1) {
        let mut v = vec![];
        let mut add = |b: Vec<u8>| v.push(Input { what: format!("scalar {}", vlib::hex(&b)), bytes: b });
        let mut dense = stream::<66>("C21 dh")[..len].to_vec();
        dense[0] = 0;
        add(dense.clone());
        for f in [0u8, 0x55, 0x7f, 0xff] {
            let mut b = vec![f; len];
            b[0] = 0;
            b[len - 1] |= 1;
            add(b);
        }
        // one bit over zero; the last byte keeps it from being zero
        for bit in 8..8 * len {
            if run.thorough() || bit % 8 == (bit / 8) % 8 && (i < 3 || bit / 8 % 4 == 3) {
                let mut b = vec![0; len];
                b[bit / 8] = 1 << (bit % 8);
                b[len - 1] |= 2;
                add(b.clone());
                let mut b = dense.clone();
                b[bit / 8] ^= 1 << (bit % 8);
                add(b);
            }
        }
        let group = [32, 16, 16, 8, 8][i];
        explore(run, &format!("DH-KEM {name} decapsulation"), "secret scalars, one peer", 40 + 2 * i as u8, group, &v);
        explore(run, &format!("DH-KEM {name} encapsulation"), "ephemeral scalars, one receiver", 41 + 2 * i as u8, group, &v);
    }
}
