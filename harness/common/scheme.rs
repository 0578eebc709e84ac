//! A uniform face over the public API of the ML-KEM parameter sets (bytes in, bytes out).
#![allow(dead_code)]
use ml_kem::kem::{Decapsulate, DecapsulationKey, Encapsulate, EncapsulationKey, Kem};
use ml_kem::{EncodedSizeUser, KemCore};
use rand_core::{CryptoRng, CryptoRngCore, RngCore};
use std::fmt::Debug;
use vlib::mlkem::Params;

pub trait Scheme: 'static {
    const P: Params;
    type Dk: Clone + PartialEq + Debug;
    type Ek: Clone + PartialEq + Debug;
    fn gen_det(d: &[u8; 32], z: &[u8; 32]) -> (Self::Dk, Self::Ek);
    fn gen_rng(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek);
    fn dk_parse(b: &[u8]) -> Self::Dk;
    fn dk_bytes(dk: &Self::Dk) -> Vec<u8>;
    fn ek_of(dk: &Self::Dk) -> &Self::Ek;
    fn ek_parse(b: &[u8]) -> Self::Ek;
    fn ek_bytes(ek: &Self::Ek) -> Vec<u8>;
    fn enc_det(ek: &Self::Ek, m: &[u8; 32]) -> (Vec<u8>, [u8; 32]);
    fn enc_rng(ek: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Vec<u8>, [u8; 32]);
    fn dec(dk: &Self::Dk, c: &[u8]) -> [u8; 32];
    /// (ek, dk, ciphertext, shared key) sizes by the types of the API
    fn sizes() -> (usize, usize, usize, usize);
}

/// A generator that plays back a fixed byte string and panics beyond its end.
pub struct Tape<'a>(pub &'a [u8]);
impl RngCore for Tape<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        assert!(dest.len() <= self.0.len(), "more random bytes drawn than specified");
        let (a, b) = self.0.split_at(dest.len());
        dest.copy_from_slice(a);
        self.0 = b;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape<'_> {}

#[cfg(feature = "deterministic")]
macro_rules! det_or_rng {
    ($det:expr, $rng:expr) => {
        $det
    };
}
#[cfg(not(feature = "deterministic"))]
macro_rules! det_or_rng {
    ($det:expr, $rng:expr) => {
        $rng
    };
}

#[macro_export]
macro_rules! scheme {
    ($name:ident, $set:ty, $params:expr) => {
        pub struct $name;
        impl Scheme for $name {
            const P: Params = $params;
            type Dk = DecapsulationKey<$set>;
            type Ek = EncapsulationKey<$set>;
            fn gen_det(d: &[u8; 32], z: &[u8; 32]) -> (Self::Dk, Self::Ek) {
                det_or_rng!(
                    <Kem<$set> as KemCore>::generate_deterministic(&(*d).into(), &(*z).into()),
                    Self::gen_rng(&mut Tape(&[&d[..], &z[..]].concat()))
                )
            }
            fn gen_rng(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek) {
                <Kem<$set> as KemCore>::generate(rng)
            }
            fn dk_parse(b: &[u8]) -> Self::Dk {
                Self::Dk::from_bytes(b.try_into().expect("decapsulation key size"))
            }
            fn dk_bytes(dk: &Self::Dk) -> Vec<u8> {
                dk.as_bytes().to_vec()
            }
            fn ek_of(dk: &Self::Dk) -> &Self::Ek {
                dk.encapsulation_key()
            }
            fn ek_parse(b: &[u8]) -> Self::Ek {
                Self::Ek::from_bytes(b.try_into().expect("encapsulation key size"))
            }
            fn ek_bytes(ek: &Self::Ek) -> Vec<u8> {
                ek.as_bytes().to_vec()
            }
            fn enc_det(ek: &Self::Ek, m: &[u8; 32]) -> (Vec<u8>, [u8; 32]) {
                det_or_rng!(
                    {
                        use ml_kem::EncapsulateDeterministic;
                        let (c, k) = ek.encapsulate_deterministic(&(*m).into()).unwrap();
                        (c.to_vec(), k.into())
                    },
                    Self::enc_rng(ek, &mut Tape(m))
                )
            }
            fn enc_rng(ek: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Vec<u8>, [u8; 32]) {
                let (c, k) = ek.encapsulate(rng).unwrap();
                (c.to_vec(), k.into())
            }
            fn dec(dk: &Self::Dk, c: &[u8]) -> [u8; 32] {
                let c: &ml_kem::Ciphertext<Kem<$set>> = c.try_into().expect("ciphertext size");
                dk.decapsulate(c).unwrap().into()
            }
            fn sizes() -> (usize, usize, usize, usize) {
                use ml_kem::array::typenum::Unsigned;
                (
                    <Self::Ek as EncodedSizeUser>::EncodedSize::USIZE,
                    <Self::Dk as EncodedSizeUser>::EncodedSize::USIZE,
                    <Kem<$set> as KemCore>::CiphertextSize::USIZE,
                    <Kem<$set> as KemCore>::SharedKeySize::USIZE,
                )
            }
        }
    };
}

scheme!(S512, ml_kem::MlKem512Params, vlib::mlkem::P512);
scheme!(S768, ml_kem::MlKem768Params, vlib::mlkem::P768);
scheme!(S1024, ml_kem::MlKem1024Params, vlib::mlkem::P1024);

/// Runs `$body` with `$S` bound to the scheme of index `$i` (0, 1, 2).
#[macro_export]
macro_rules! with_scheme {
    ($i:expr, $S:ident => $body:expr) => {
        match $i {
            0 => {
                type $S = S512;
                $body
            }
            1 => {
                type $S = S768;
                $body
            }
            2 => {
                type $S = S1024;
                $body
            }
            _ => unreachable!(),
        }
    };
}
