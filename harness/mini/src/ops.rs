//! The operations, each in every way the features of this build offer.
#[cfg(feature = "mlkem")]
use crate::scheme::*;
#[cfg(not(feature = "mlkem"))]
use crate::tape::Tape;

type Ways = Vec<(&'static str, Vec<Vec<u8>>)>;

pub fn supported(name: &str, set: &str) -> bool {
    match name.split('.').next().unwrap() {
        "ml" => cfg!(feature = "mlkem"),
        "xw" => cfg!(feature = "xwing"),
        "dh" => match set {
            "X25519" => cfg!(feature = "x25519"),
            "Secp256k1" => cfg!(feature = "k256"),
            "P256" => cfg!(feature = "p256"),
            "P384" => cfg!(feature = "p384"),
            "P521" => cfg!(feature = "p521"),
            _ => panic!("unknown curve"),
        },
        _ => panic!("unknown operation"),
    }
}

fn a32(b: &[u8]) -> [u8; 32] {
    b.try_into().expect("32 bytes")
}

pub fn exec(name: &str, set: &str, a: &[Vec<u8>]) -> Ways {
    match name.split('.').next().unwrap() {
        #[cfg(feature = "mlkem")]
        "ml" => match set {
            "512" => ml::<S512>(name, a),
            "768" => ml::<S768>(name, a),
            _ => ml::<S1024>(name, a),
        },
        #[cfg(feature = "xwing")]
        "xw" => xw(name, a),
        #[cfg(feature = "dhkem")]
        "dh" => match set {
            #[cfg(feature = "x25519")]
            "X25519" => x25519(name, a),
            #[cfg(feature = "k256")]
            "Secp256k1" => curves::secp256k1(name, a),
            #[cfg(feature = "p256")]
            "P256" => curves::p256(name, a),
            #[cfg(feature = "p384")]
            "P384" => curves::p384(name, a),
            #[cfg(feature = "p521")]
            "P521" => curves::p521(name, a),
            _ => panic!("unknown curve"),
        },
        _ => panic!("unknown operation"),
    }
}

#[cfg(feature = "mlkem")]
fn ml<S: Scheme>(name: &str, a: &[Vec<u8>]) -> Ways {
    let mut v: Ways = vec![];
    match name {
        // d z = ek dk
        "ml.gen" => {
            let (dk, ek) = S::gen_rng(&mut Tape(&[&a[0][..], &a[1][..]].concat()));
            v.push(("generator", vec![S::ek_bytes(&ek), S::dk_bytes(&dk)]));
            if cfg!(feature = "deterministic") {
                let (dk, ek) = S::gen_det(&a32(&a[0]), &a32(&a[1]));
                v.push(("deterministic", vec![S::ek_bytes(S::ek_of(&dk)), S::dk_bytes(&dk)]));
            }
        }
        // ek m = c K
        "ml.enc" => {
            let ek = S::ek_parse(&a[0]);
            let (c, k) = S::enc_rng(&ek, &mut Tape(&a[1]));
            v.push(("generator", vec![c, k.to_vec()]));
            if cfg!(feature = "deterministic") {
                let (c, k) = S::enc_det(&ek, &a32(&a[1]));
                v.push(("deterministic", vec![c, k.to_vec()]));
            }
        }
        // dk c = K
        "ml.dec" => {
            let dk = S::dk_parse(&a[0]);
            v.push(("parsed key", vec![S::dec(&dk, &a[1]).to_vec()]));
        }
        // ek dk = ek dk
        "ml.round" => {
            let (ek, dk) = (S::ek_parse(&a[0]), S::dk_parse(&a[1]));
            let (ek2, dk2) = (ek.clone(), dk.clone());
            drop((ek, dk));
            assert!(!format!("{ek2:?}{dk2:?}").is_empty());
            v.push(("re-serialised", vec![S::ek_bytes(&ek2), S::dk_bytes(&dk2)]));
            assert!(ek2 == S::ek_parse(&a[0]) && dk2 == S::dk_parse(&a[1]), "clone differs from original");
        }
        // d z m = c K: generate, encapsulate, decapsulate on live objects
        "ml.all" => {
            let (dk, ek) = S::gen_rng(&mut Tape(&[&a[0][..], &a[1][..]].concat()));
            let (c, k) = S::enc_rng(&ek, &mut Tape(&a[2]));
            let k2 = S::dec(&dk, &c);
            v.push(("sender", vec![c.clone(), k.to_vec()]));
            v.push(("receiver", vec![c, k2.to_vec()]));
        }
        _ => panic!("unknown operation"),
    }
    v
}

#[cfg(feature = "xwing")]
fn xw(name: &str, a: &[Vec<u8>]) -> Ways {
    use kem::{Decapsulate, Encapsulate};
    use x_wing::*;
    let mut v: Ways = vec![];
    match name {
        // seed = ek
        "xw.gen" => {
            let (dk, ek) = generate_key_pair(&mut Tape(&a[0]));
            v.push(("generator", vec![ek.as_bytes().to_vec()]));
            assert!(dk.as_bytes()[..] == a[0][..], "seed");
        }
        // ek eseed = ct ss
        "xw.enc" => {
            let ek = EncapsulationKey::from(<&[u8; 1216]>::try_from(&a[0][..]).unwrap());
            let (c, s) = ek.encapsulate(&mut Tape(&a[1])).unwrap();
            v.push(("generator", vec![c.as_bytes().to_vec(), s.to_vec()]));
        }
        // seed ct = ss
        "xw.dec" => {
            let c = Ciphertext::from(<&[u8; 1120]>::try_from(&a[1][..]).unwrap());
            let dk = DecapsulationKey::from(a32(&a[0]));
            v.push(("seed", vec![dk.decapsulate(&c.clone()).unwrap().to_vec()]));
        }
        // ek ct = ek ct
        "xw.round" => {
            let ek = EncapsulationKey::from(<&[u8; 1216]>::try_from(&a[0][..]).unwrap());
            let c = Ciphertext::from(<&[u8; 1120]>::try_from(&a[1][..]).unwrap());
            let (e2, c2) = (ek.clone(), c.clone());
            assert!(e2 == ek && c2 == c, "clone differs from original");
            drop((ek, c));
            v.push(("re-serialised", vec![e2.as_bytes().to_vec(), c2.as_bytes().to_vec()]));
        }
        _ => panic!("unknown operation"),
    }
    v
}

#[cfg(feature = "x25519")]
fn x25519(name: &str, a: &[Vec<u8>]) -> Ways {
    use dhkem::*;
    use kem::{Decapsulate, Encapsulate};
    let mut v: Ways = vec![];
    match name {
        "dh.gen" => {
            let (_, e) = X25519Kem::random_keypair(&mut Tape(&a[0]));
            v.push(("generator", vec![e.as_ref().as_bytes().to_vec()]));
        }
        "dh.enc" => {
            let e = DhEncapsulator::from(x25519_dalek::PublicKey::from(a32(&a[0])));
            let (p, s) = e.encapsulate(&mut Tape(&a[1])).unwrap();
            v.push(("generator", vec![p.as_bytes().to_vec(), s.as_bytes().to_vec()]));
        }
        "dh.dec" => {
            let (d, _) = X25519Kem::random_keypair(&mut Tape(&a[0]));
            let p = x25519_dalek::PublicKey::from(a32(&a[1]));
            v.push(("generated key", vec![d.decapsulate(&p).unwrap().as_bytes().to_vec()]));
        }
        _ => panic!("unknown operation"),
    }
    v
}

#[cfg(any(feature = "k256", feature = "p256", feature = "p384", feature = "p521"))]
mod curves {
    use super::*;
    use dhkem::*;
    use elliptic_curve::sec1::{FromEncodedPoint, ToEncodedPoint};
    use kem::{Decapsulate, Encapsulate};
    macro_rules! curve {
        ($f:ident, $feature:literal, $kem:ident, $curve:ty) => {
            #[cfg(feature = $feature)]
            pub fn $f(name: &str, a: &[Vec<u8>]) -> Ways {
                let mut v: Ways = vec![];
                let pk = |b: &[u8]| -> elliptic_curve::PublicKey<$curve> {
                    let e = elliptic_curve::sec1::EncodedPoint::<$curve>::from_bytes(b).expect("encoded point");
                    Option::from(elliptic_curve::PublicKey::<$curve>::from_encoded_point(&e)).expect("valid public key")
                };
                match name {
                    "dh.gen" => {
                        let (_, e) = <$kem>::random_keypair(&mut Tape(&a[0]));
                        v.push(("generator", vec![e.to_encoded_point(false).as_bytes().to_vec()]));
                    }
                    "dh.enc" => {
                        let e = DhEncapsulator::from(pk(&a[0]));
                        let (p, s) = e.encapsulate(&mut Tape(&a[1])).unwrap();
                        v.push(("generator", vec![p.to_encoded_point(false).as_bytes().to_vec(), s.raw_secret_bytes().to_vec()]));
                    }
                    "dh.dec" => {
                        let (d, _) = <$kem>::random_keypair(&mut Tape(&a[0]));
                        v.push(("generated key", vec![d.decapsulate(&pk(&a[1])).unwrap().raw_secret_bytes().to_vec()]));
                    }
                    _ => panic!("unknown operation"),
                }
                v
            }
        };
    }
    curve!(secp256k1, "k256", Secp256k1Kem, k256::Secp256k1);
    curve!(p256, "p256", NistP256Kem, p256::NistP256);
    curve!(p384, "p384", NistP384Kem, p384::NistP384);
    curve!(p521, "p521", NistP521Kem, p521::NistP521);
}
