use crate::memory::{self, Way};
use crate::Subject;
use ml_kem::kem::{Decapsulate, DecapsulationKey, Encapsulate};
use ml_kem::{EncodedSizeUser, KemCore};
use std::marker::PhantomData;
use std::sync::OnceLock;
use vlib::engine::Run;
use vlib::mlkem::{self, Params};
use vlib::rng::stream;

struct Tape(u8);
impl rand_core::RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 as u64
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(self.0)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Tape {}

fn fill12(v: u16, n: usize) -> Vec<u8> {
    let b = [v as u8, (v >> 8) as u8 | ((v & 15) << 4) as u8, (v >> 4) as u8];
    (0..n).map(|i| b[i % 3]).collect()
}

macro_rules! subject {
    ($name:ident, $kem:ty, $params:ty, $p:expr, $dk:ty) => {
        pub struct $name(PhantomData<()>);
        impl $name {
            const P: Params = $p;
            fn base() -> &'static (Vec<u8>, Vec<u8>) {
                static B: OnceLock<(Vec<u8>, Vec<u8>)> = OnceLock::new();
                B.get_or_init(|| {
                    let s: [u8; 64] = stream("C13 base");
                    let (ek, dk) = mlkem::keygen(&Self::P, &s[..32], &s[32..]);
                    let (ct, _) = mlkem::encaps(&Self::P, &ek, &[7; 32]);
                    (dk, ct)
                })
            }
            fn parse(b: &[u8]) -> $dk {
                <$dk>::from_bytes(b.try_into().expect("size"))
            }
            fn with(s: &[u8], z: &[u8]) -> $dk {
                let (dk, _) = Self::base();
                let k = 384 * Self::P.k;
                Self::parse(&[s, &dk[k..dk.len() - 32], z].concat())
            }
        }
        impl Subject for $name {
            type T = $dk;
            fn name() -> String {
                format!("{} decapsulation key", Self::P.name())
            }
            fn variants() -> u64 {
                12
            }
            fn describe(v: u64) -> String {
                ["honest secret", "all coefficients q-1", "all coefficients 1", "all coefficients 4095", "ramp", "only the last coefficient", "only the first coefficient", "only z", "only the last byte of z", "only the first byte of z", "generated", "generated from fills"][v as usize].into()
            }
            fn make(v: u64) -> $dk {
                let (dk, _) = Self::base();
                let k = 384 * Self::P.k;
                let z = &dk[dk.len() - 32..];
                let zero = [0u8; 32];
                match v {
                    0 => Self::parse(dk),
                    1 => Self::with(&fill12(3328, k), &[0xff; 32]),
                    2 => Self::with(&fill12(1, k), &[1; 32]),
                    3 => Self::with(&fill12(4095, k), z),
                    4 => Self::with(&(0..k).map(|i| (i % 208) as u8).collect::<Vec<_>>(), z),
                    5 | 6 => {
                        let mut s = vec![0; k];
                        s[if v == 5 { k - 1 } else { 0 }] = 0x30;
                        Self::with(&s, &zero)
                    }
                    7 => Self::with(&vec![0; k], z),
                    8 | 9 => {
                        let mut z = zero;
                        z[if v == 8 { 31 } else { 0 }] = 0x80;
                        Self::with(&vec![0; k], &z)
                    }
                    10 => {
                        let s: [u8; 64] = stream("C13 base");
                        let (d, z): ([u8; 32], [u8; 32]) = (s[..32].try_into().unwrap(), s[32..].try_into().unwrap());
                        <$kem>::generate_deterministic(&d.into(), &z.into()).0
                    }
                    _ => <$kem>::generate(&mut Tape(0x5a)).0,
                }
            }
            fn reference(v: u64) -> $dk {
                let k = 384 * Self::P.k;
                if v == 11 {
                    let (_, dk) = mlkem::keygen(&Self::P, &[0x5a; 32], &[0x5a; 32]);
                    return Self::parse(&[&vec![0; k][..], &dk[k..dk.len() - 32], &[0; 32]].concat());
                }
                Self::with(&vec![0; k], &[0; 32])
            }
            fn ops() -> Vec<(&'static str, Box<dyn Fn(&$dk) + Sync>)> {
                let (_, ct) = Self::base();
                let honest: ml_kem::Ciphertext<$kem> = ct.as_slice().try_into().unwrap();
                let mut other = honest.clone();
                other[3] ^= 1;
                vec![
                    ("decapsulate", Box::new(move |k: &$dk| drop(std::hint::black_box(k.decapsulate(&honest))))),
                    ("decapsulate an altered ciphertext", Box::new(move |k: &$dk| drop(std::hint::black_box(k.decapsulate(&other))))),
                    ("serialise", Box::new(|k: &$dk| drop(std::hint::black_box(k.as_bytes())))),
                    ("encapsulate to its key", Box::new(|k: &$dk| drop(std::hint::black_box(k.encapsulation_key().encapsulate(&mut Tape(3)))))),
                    ("clone", Box::new(|k: &$dk| drop(std::hint::black_box(k.clone())))),
                    ("compare", Box::new(|k: &$dk| drop(std::hint::black_box(k == k)))),
                ]
            }
            fn ways() -> Vec<Way<$dk>> {
                memory::ways().into_iter().chain(memory::sent()).chain(memory::cloned()).collect()
            }
        }
    };
}
subject!(K512, ml_kem::MlKem512, ml_kem::MlKem512Params, mlkem::P512, DecapsulationKey<ml_kem::MlKem512Params>);
subject!(K768, ml_kem::MlKem768, ml_kem::MlKem768Params, mlkem::P768, DecapsulationKey<ml_kem::MlKem768Params>);
subject!(K1024, ml_kem::MlKem1024, ml_kem::MlKem1024Params, mlkem::P1024, DecapsulationKey<ml_kem::MlKem1024Params>);

pub fn run(run: &mut Run) {
    crate::explore::<K512>(run);
    crate::explore::<K768>(run);
    crate::explore::<K1024>(run);
}
