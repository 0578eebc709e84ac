use crate::memory::{self, Way};
use crate::Subject;
use dhkem::*;
use kem::{Decapsulate, Encapsulate};
use vlib::engine::Run;
use vlib::rng::stream;

struct Tape(Vec<u8>);
impl rand_core::RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        unimplemented!()
    }
    fn next_u64(&mut self) -> u64 {
        unimplemented!()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.copy_from_slice(&self.0[..d.len()])
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Tape {}

/// scalars below every group order, big endian in `len` bytes
fn scalar(v: u64, len: usize) -> Vec<u8> {
    let mut b = vec![0; len];
    match v {
        0 => b[len - 1] = 1,
        1 => {
            b.copy_from_slice(&stream::<66>("C13 dh")[..len]);
            b[0] = 0;
        }
        2 => {
            b.fill(0x7f);
            b[0] = 0;
        }
        // one byte of the scalar only
        _ => {
            b[len - 1] = 1;
            b[1 + (v as usize - 3) % (len - 1)] ^= 0x82;
        }
    }
    b
}

macro_rules! subject {
    ($name:ident, $kem:ty, $dk:ty, $len:expr, $extra:expr) => {
        struct $name;
        impl Subject for $name {
            type T = $dk;
            fn name() -> String {
                concat!("DH-KEM decapsulation key ", stringify!($name)).into()
            }
            fn variants() -> u64 {
                2 + $len
            }
            fn describe(v: u64) -> String {
                format!("scalar {}", vlib::hex(&scalar(v + 1, $len)))
            }
            fn make(v: u64) -> $dk {
                <$kem as DhKem>::random_keypair(&mut Tape(scalar(v + 1, $len))).0
            }
            fn reference(_: u64) -> $dk {
                <$kem as DhKem>::random_keypair(&mut Tape(scalar(0, $len))).0
            }
            fn ops() -> Vec<(&'static str, Box<dyn Fn(&$dk) + Sync>)> {
                let (_, e) = <$kem as DhKem>::random_keypair(&mut Tape(scalar(2, $len)));
                let (p, _) = e.encapsulate(&mut Tape(scalar(1, $len))).unwrap();
                vec![
                    ("decapsulate", Box::new(move |k| drop(std::hint::black_box(k.decapsulate(&p))))),
                    ("borrow", Box::new(|k| { std::hint::black_box(k.as_ref()); })),
                ]
            }
            fn ways() -> Vec<Way<$dk>> {
                let v: Vec<Way<$dk>> = memory::ways().into_iter().chain(memory::sent()).chain($extra).collect();
                v
            }
        }
    };
}
subject!(Secp256k1, Secp256k1Kem, <Secp256k1Kem as DhKem>::DecapsulatingKey, 32, Vec::new());
subject!(P256, NistP256Kem, <NistP256Kem as DhKem>::DecapsulatingKey, 32, Vec::new());
subject!(P384, NistP384Kem, <NistP384Kem as DhKem>::DecapsulatingKey, 48, Vec::new());
subject!(P521, NistP521Kem, <NistP521Kem as DhKem>::DecapsulatingKey, 66, Vec::new());
#[cfg(feature = "x25519-zeroize")]
subject!(X25519, X25519Kem, <X25519Kem as DhKem>::DecapsulatingKey, 32, memory::cloned().into_iter().chain(memory::zeroized()));
#[cfg(not(feature = "x25519-zeroize"))]
subject!(X25519, X25519Kem, <X25519Kem as DhKem>::DecapsulatingKey, 32, memory::cloned());

/// An arbitrary wrapped secret that erases itself: the wrappers must let it.
#[derive(Clone)]
struct Own([u8; 24]);
impl zeroize::Zeroize for Own {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        zeroize::Zeroize::zeroize(self)
    }
}
impl zeroize::ZeroizeOnDrop for Own {}
macro_rules! wrapper {
    ($name:ident, $w:ident) => {
        struct $name;
        impl Subject for $name {
            type T = $w<Own>;
            fn name() -> String {
                concat!(stringify!($w), " around a secret").into()
            }
            fn variants() -> u64 {
                24
            }
            fn describe(v: u64) -> String {
                format!("byte {v}")
            }
            fn make(v: u64) -> Self::T {
                let mut b = [0; 24];
                b[v as usize] = 0x66;
                $w::from(Own(b))
            }
            fn reference(_: u64) -> Self::T {
                $w::from(Own([0; 24]))
            }
            fn ops() -> Vec<(&'static str, Box<dyn Fn(&Self::T) + Sync>)> {
                vec![("borrow", Box::new(|k| { std::hint::black_box(k.as_ref()); })), ("clone", Box::new(|k| drop(std::hint::black_box(k.clone()))))]
            }
            fn ways() -> Vec<Way<Self::T>> {
                memory::ways().into_iter().chain(memory::sent()).chain(memory::cloned()).chain(memory::zeroized()).collect()
            }
        }
    };
}
wrapper!(Decap, DhDecapsulator);
wrapper!(Encap, DhEncapsulator);

pub fn run(run: &mut Run) {
    crate::explore::<Secp256k1>(run);
    crate::explore::<P256>(run);
    crate::explore::<P384>(run);
    crate::explore::<P521>(run);
    crate::explore::<X25519>(run);
    crate::explore::<Decap>(run);
    crate::explore::<Encap>(run);
}
