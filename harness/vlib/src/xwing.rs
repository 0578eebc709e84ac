//! X-Wing, draft-connolly-cfrg-xwing-kem-04.
use crate::keccak::{sha3_256, Sponge};
use crate::mlkem::{self, P768};
use crate::x25519::{x25519, BASE};

pub struct Expanded {
    pub ek_m: Vec<u8>,
    pub dk_m: Vec<u8>,
    pub sk_x: [u8; 32],
    pub pk_x: [u8; 32],
}

pub fn expand(sk: &[u8; 32]) -> Expanded {
    let mut e = [0u8; 96];
    Sponge::shake128().absorb(sk).squeeze(&mut e);
    let (ek_m, dk_m) = mlkem::keygen(&P768, &e[..32], &e[32..64]);
    let sk_x: [u8; 32] = e[64..].try_into().unwrap();
    Expanded { ek_m, dk_m, sk_x, pk_x: x25519(&sk_x, &BASE) }
}

pub fn public_key(sk: &[u8; 32]) -> Vec<u8> {
    let e = expand(sk);
    [&e.ek_m[..], &e.pk_x].concat()
}

pub fn combiner(ss_m: &[u8], ss_x: &[u8], ct_x: &[u8], pk_x: &[u8]) -> [u8; 32] {
    sha3_256(&[b"\\.//^\\", ss_m, ss_x, ct_x, pk_x])
}

/// eseed = m || ek_x; the ML-KEM part of pk is taken modulo q
pub fn encaps(pk: &[u8], eseed: &[u8; 64]) -> (Vec<u8>, [u8; 32]) {
    let pk_m = mlkem::canonical_ek(&P768, &pk[..1184]);
    let pk_x: [u8; 32] = pk[1184..].try_into().unwrap();
    let ek_x: [u8; 32] = eseed[32..].try_into().unwrap();
    let ct_x = x25519(&ek_x, &BASE);
    let ss_x = x25519(&ek_x, &pk_x);
    let (mut ct, ss_m) = mlkem::encaps(&P768, &pk_m, &eseed[..32]);
    ct.extend(ct_x);
    (ct, combiner(&ss_m, &ss_x, &ct_x, &pk_x))
}

pub fn decaps_expanded(e: &Expanded, ct: &[u8]) -> [u8; 32] {
    let ct_x: [u8; 32] = ct[1088..].try_into().unwrap();
    let ss_m = mlkem::decaps(&P768, &e.dk_m, &ct[..1088]);
    let ss_x = x25519(&e.sk_x, &ct_x);
    combiner(&ss_m, &ss_x, &ct_x, &e.pk_x)
}

pub fn decaps(sk: &[u8; 32], ct: &[u8]) -> [u8; 32] {
    decaps_expanded(&expand(sk), ct)
}
