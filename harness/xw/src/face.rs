//! The public API of x-wing, bytes in and bytes out.
use crate::script::Script;
use kem::{Decapsulate, Encapsulate};
use rand_core::CryptoRngCore;
pub use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};

pub fn dk(seed: &[u8; 32]) -> DecapsulationKey {
    DecapsulationKey::from(*seed)
}
pub fn ek(b: &[u8]) -> EncapsulationKey {
    EncapsulationKey::from(<&[u8; 1216]>::try_from(b).expect("encapsulation key size"))
}
pub fn ct(b: &[u8]) -> Ciphertext {
    Ciphertext::from(<&[u8; 1120]>::try_from(b).expect("ciphertext size"))
}
pub fn enc_rng(ek: &EncapsulationKey, rng: &mut impl CryptoRngCore) -> (Ciphertext, [u8; 32]) {
    ek.encapsulate(rng).unwrap()
}
pub fn enc(ek: &EncapsulationKey, eseed: &[u8; 64]) -> (Vec<u8>, [u8; 32]) {
    let (c, k) = enc_rng(ek, &mut Script::new(eseed));
    (c.as_bytes().to_vec(), k)
}
pub fn dec(dk: &DecapsulationKey, c: &Ciphertext) -> [u8; 32] {
    dk.decapsulate(c).unwrap()
}
pub fn flip(b: &[u8], at: usize, x: u8) -> Vec<u8> {
    let mut v = b.to_vec();
    v[at] ^= x;
    v
}
