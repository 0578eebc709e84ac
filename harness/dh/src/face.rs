//! A uniform face over the DH-KEMs: bytes in, bytes out; and what the model says.
use crate::model::{n, Curve};
use dhkem::*;
use elliptic_curve::sec1::{FromEncodedPoint, ToEncodedPoint};
use kem::{Decapsulate, Encapsulate};
use num_bigint::BigUint as N;
use rand_core::CryptoRngCore;
use std::sync::OnceLock;

pub trait Dh: 'static {
    type Dk;
    type Ek: Clone;
    const NAME: &'static str;
    /// bytes drawn per scalar
    const LEN: usize;
    fn keypair(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek);
    fn ek(b: &[u8]) -> Self::Ek;
    fn ek_bytes(e: &Self::Ek) -> Vec<u8>;
    fn enc(e: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Vec<u8>, Vec<u8>);
    fn dec(d: &Self::Dk, pk: &[u8]) -> Vec<u8>;

    // the model
    fn public(scalar: &[u8]) -> Vec<u8>;
    fn dh(scalar: &[u8], peer: &[u8]) -> Vec<u8>;
    /// the value for two scalars, by the product of the scalars where the model allows it
    fn dh2(a: &[u8], b: &[u8]) -> Vec<u8>;
    /// boundary scalars
    fn scalars(many: bool) -> Vec<Vec<u8>>;
    fn in_range(scalar: &[u8]) -> bool;
    /// draws that must be rejected
    fn rejected() -> Vec<Vec<u8>>;
    /// valid public keys, in every accepted encoding
    fn peers() -> Vec<(String, Vec<u8>)>;
    fn check();
}

fn pool(c: &Curve, many: bool) -> Vec<Vec<u8>> {
    let bits = c.n.bits();
    let one = n(1);
    let mut v = vec![one.clone(), n(2), n(3), n(4), n(5), n(7), n(8), n(15), n(16), n(17), &c.n - 1u32, &c.n - 2u32, &c.n - 3u32, &c.n - 16u32, (&c.n - 1u32) >> 1, (&c.n + 1u32) >> 1];
    // digit patterns that reach the extremes of windowed recodings
    for byte in [0x55u8, 0xaa, 0x0f, 0xf0, 0x88, 0x77, 0x80, 0x7f, 0x11, 0xee] {
        v.push(N::from_bytes_be(&vec![byte; c.len]) % &c.n);
    }
    for i in (0..bits - 1).filter(|i| many || i % 64 < 2 || i % 64 == 63 || *i == bits - 2 || i % 64 == 32) {
        v.push(&one << i);
        v.push((&one << i) - 1u32);
        if many {
            v.push(&c.n - (&one << i));
        }
    }
    let s: [u8; 6 * 66] = vlib::rng::stream(&format!("scalars {}", c.name));
    for x in s.chunks(66) {
        v.push(N::from_bytes_be(x) % &c.n);
    }
    // secrets whose shared value has leading zero bytes: the first multiples of G that have
    let found: Vec<N> = (1u32..1500).map(|k| n(k)).filter(|k| c.mul_base(k).unwrap().0.bits() <= c.p.bits() - 8).take(if many { 6 } else { 2 }).collect();
    v.extend(found);
    v.retain(|x| *x != n(0) && *x < c.n);
    let mut out: Vec<Vec<u8>> = vec![];
    for x in v {
        let b = c.bytes(&x);
        if !out.contains(&b) {
            out.push(b);
        }
    }
    out
}

fn points(c: &Curve) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut both = |name: String, q: &(N, N)| {
        v.push((format!("{name}, uncompressed"), c.encode(q, false)));
        v.push((format!("{name}, compressed"), c.encode(q, true)));
    };
    for k in 1..=8u32 {
        let q = c.mul_base(&n(k)).unwrap();
        both(format!("{k}G"), &q);
        both(format!("-{k}G"), &(q.0.clone(), &c.p - &q.1));
    }
    // extreme coordinates
    let mut found = 0;
    for i in 0..40u32 {
        for x in [n(i), &c.p - 1u32 - i] {
            if found < 16 {
                if let Some(y) = c.lift(&x) {
                    found += 1;
                    both(format!("x={x}"), &(x.clone(), y.clone()));
                    both(format!("x={x}, other y"), &(x.clone(), &c.p - y));
                }
            }
        }
    }
    // x with whole zero or all-ones words
    for i in (0..c.p.bits() - 8).step_by(32) {
        for j in 0..64u32 {
            let x = (n(1) << i) + j;
            if let Some(y) = c.lift(&x) {
                both(format!("x=2^{i}+{j}"), &(x, y));
                break;
            }
        }
    }
    v
}

macro_rules! weierstrass {
    ($t:ident, $kem:ty, $curve:ty, $model:ident, $len:expr) => {
        pub struct $t;
        impl $t {
            pub fn model() -> &'static Curve {
                static C: OnceLock<Curve> = OnceLock::new();
                C.get_or_init(Curve::$model)
            }
            fn pk(b: &[u8]) -> elliptic_curve::PublicKey<$curve> {
                let e = elliptic_curve::sec1::EncodedPoint::<$curve>::from_bytes(b).expect("encoded point");
                Option::from(elliptic_curve::PublicKey::<$curve>::from_encoded_point(&e)).expect("valid public key")
            }
        }
        impl Dh for $t {
            type Dk = <$kem as DhKem>::DecapsulatingKey;
            type Ek = <$kem as DhKem>::EncapsulatingKey;
            const NAME: &'static str = stringify!($t);
            const LEN: usize = $len;
            fn keypair(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek) {
                <$kem as DhKem>::random_keypair(rng)
            }
            fn ek(b: &[u8]) -> Self::Ek {
                DhEncapsulator::from(Self::pk(b))
            }
            fn ek_bytes(e: &Self::Ek) -> Vec<u8> {
                e.as_ref().to_encoded_point(false).as_bytes().to_vec()
            }
            fn enc(e: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Vec<u8>, Vec<u8>) {
                let (p, s) = e.encapsulate(rng).unwrap();
                (p.to_encoded_point(false).as_bytes().to_vec(), s.raw_secret_bytes().to_vec())
            }
            fn dec(d: &Self::Dk, pk: &[u8]) -> Vec<u8> {
                d.decapsulate(&Self::pk(pk)).unwrap().raw_secret_bytes().to_vec()
            }
            fn public(k: &[u8]) -> Vec<u8> {
                let c = Self::model();
                c.encode(&c.mul_base(&N::from_bytes_be(k)).expect("nonzero"), false)
            }
            fn dh(k: &[u8], peer: &[u8]) -> Vec<u8> {
                let c = Self::model();
                c.bytes(&c.mul_point(&N::from_bytes_be(k), &c.decode(peer)).expect("prime order").0)
            }
            fn dh2(a: &[u8], b: &[u8]) -> Vec<u8> {
                let c = Self::model();
                c.bytes(&c.mul_base(&(N::from_bytes_be(a) * N::from_bytes_be(b) % &c.n)).expect("nonzero").0)
            }
            fn scalars(many: bool) -> Vec<Vec<u8>> {
                pool(Self::model(), many)
            }
            fn in_range(k: &[u8]) -> bool {
                let k = N::from_bytes_be(k);
                k != n(0) && k < Self::model().n
            }
            fn rejected() -> Vec<Vec<u8>> {
                let c = Self::model();
                let mut v = vec![c.bytes(&n(0)), c.bytes(&c.n), c.bytes(&(&c.n + 1u32)), vec![0xff; $len]];
                let top = (n(1) << (8 * $len)) - 1u32;
                v.push(c.bytes(&(&top - 1u32)));
                v.push(c.bytes(&((&c.n + &top) >> 1)));
                if c.n.bits() < 8 * $len as u64 {
                    v.push(c.bytes(&(n(1) << (c.n.bits()))));
                    v.push(c.bytes(&((n(1) << (8 * $len - 1)) + 1u32)));
                }
                v
            }
            fn peers() -> Vec<(String, Vec<u8>)> {
                points(Self::model())
            }
            fn check() {
                Self::model().self_check();
            }
        }
    };
}
weierstrass!(Secp256k1, Secp256k1Kem, k256::Secp256k1, k256, 32);
weierstrass!(P256, NistP256Kem, p256::NistP256, p256, 32);
weierstrass!(P384, NistP384Kem, p384::NistP384, p384, 48);
weierstrass!(P521, NistP521Kem, p521::NistP521, p521, 66);

pub struct X25519;
fn a32(b: &[u8]) -> [u8; 32] {
    b.try_into().expect("32 bytes")
}
impl Dh for X25519 {
    type Dk = <X25519Kem as DhKem>::DecapsulatingKey;
    type Ek = <X25519Kem as DhKem>::EncapsulatingKey;
    const NAME: &'static str = "X25519";
    const LEN: usize = 32;
    fn keypair(rng: &mut impl CryptoRngCore) -> (Self::Dk, Self::Ek) {
        X25519Kem::random_keypair(rng)
    }
    fn ek(b: &[u8]) -> Self::Ek {
        DhEncapsulator::from(x25519_dalek::PublicKey::from(a32(b)))
    }
    fn ek_bytes(e: &Self::Ek) -> Vec<u8> {
        e.as_ref().as_bytes().to_vec()
    }
    fn enc(e: &Self::Ek, rng: &mut impl CryptoRngCore) -> (Vec<u8>, Vec<u8>) {
        let (p, s) = e.encapsulate(rng).unwrap();
        (p.as_bytes().to_vec(), s.as_bytes().to_vec())
    }
    fn dec(d: &Self::Dk, pk: &[u8]) -> Vec<u8> {
        d.decapsulate(&x25519_dalek::PublicKey::from(a32(pk))).unwrap().as_bytes().to_vec()
    }
    fn public(k: &[u8]) -> Vec<u8> {
        vlib::x25519::x25519(&a32(k), &vlib::x25519::BASE).to_vec()
    }
    fn dh(k: &[u8], peer: &[u8]) -> Vec<u8> {
        vlib::x25519::x25519(&a32(k), &a32(peer)).to_vec()
    }
    fn dh2(a: &[u8], b: &[u8]) -> Vec<u8> {
        Self::dh(a, &Self::public(b))
    }
    fn scalars(many: bool) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![];
        for byte in [0u8, 0xff, 0x55, 0xaa, 0x0f, 0xf0, 0x80, 0x7f, 0x88, 0x01] {
            v.push(vec![byte; 32]);
        }
        for i in 0..256 {
            if many || i < 5 || i > 250 || i % 64 == 0 || i % 51 == 0 {
                let mut b = vec![0u8; 32];
                b[i / 8] = 1 << (i % 8);
                v.push(b.clone());
                v.push(b.iter().map(|x| !x).collect());
            }
        }
        let s: [u8; 192] = vlib::rng::stream("scalars x25519");
        v.extend(s.chunks(32).map(|x| x.to_vec()));
        v
    }
    fn in_range(_: &[u8]) -> bool {
        true
    }
    fn rejected() -> Vec<Vec<u8>> {
        vec![]
    }
    fn peers() -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = vlib::x25519::special_points().into_iter().map(|(n, p)| (n, p.to_vec())).collect();
        for i in 0..16u8 {
            v.push((format!("{i}th public"), Self::public(&[i; 32])));
        }
        for i in 0..255 {
            let mut b = vec![0u8; 32];
            b[i / 8] = 1 << (i % 8);
            v.push((format!("u=2^{i}"), b));
        }
        v
    }
    fn check() {
        vlib::x25519::self_check();
    }
}

/// Runs `$body` with `$D` bound to the KEM of index `$i` (0..5).
#[macro_export]
macro_rules! with_dh {
    ($i:expr, $D:ident => $body:expr) => {
        match $i {
            0 => { type $D = $crate::face::Secp256k1; $body }
            1 => { type $D = $crate::face::P256; $body }
            2 => { type $D = $crate::face::P384; $body }
            3 => { type $D = $crate::face::P521; $body }
            4 => { type $D = $crate::face::X25519; $body }
            _ => unreachable!(),
        }
    };
}
