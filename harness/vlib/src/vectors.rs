//! Validates the models against the published test vectors, on every run that relies on them.
use crate::keccak::sha3_256;
use crate::mlkem::{self, Params, P1024, P512, P768};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn params(s: &str) -> Params {
    match s {
        "2" => P512,
        "3" => P768,
        "4" => P1024,
        _ => panic!("vector rank"),
    }
}

pub fn mlkem_vectors() -> usize {
    let mut n = 0;
    for l in include_str!("../../vectors/mlkem.txt").lines().filter(|l| !l.starts_with('#')) {
        let f: Vec<&str> = l.split(' ').collect();
        let p = params(f[1]);
        let v: Vec<Vec<u8>> = f[2..].iter().map(|s| unhex(s)).collect();
        match f[0] {
            "keygen" => {
                let (ek, dk) = mlkem::keygen(&p, &v[0], &v[1]);
                assert_eq!(sha3_256(&[&ek])[..], v[2][..], "model: keygen vector");
                assert_eq!(sha3_256(&[&dk])[..], v[3][..], "model: keygen vector");
            }
            "encaps" => {
                let (c, k) = mlkem::encaps(&p, &v[0], &v[1]);
                assert_eq!(sha3_256(&[&c])[..], v[2][..], "model: encaps vector");
                assert_eq!(k[..], v[3][..], "model: encaps vector");
            }
            "decaps" => assert_eq!(mlkem::decaps(&p, &v[0], &v[1])[..], v[2][..], "model: decaps vector"),
            _ => panic!("vector kind"),
        }
        n += 1;
    }
    n
}

pub fn xwing_vectors() -> usize {
    let mut n = 0;
    for l in include_str!("../../vectors/xwing.txt").lines().filter(|l| !l.starts_with('#')) {
        let v: Vec<Vec<u8>> = l.split(' ').map(unhex).collect();
        let sk: [u8; 32] = v[0][..].try_into().unwrap();
        let pk = crate::xwing::public_key(&sk);
        assert_eq!(sha3_256(&[&pk])[..], v[2][..], "model: x-wing key vector");
        let (ct, ss) = crate::xwing::encaps(&pk, v[1][..].try_into().unwrap());
        assert_eq!(sha3_256(&[&ct])[..], v[3][..], "model: x-wing ciphertext vector");
        assert_eq!(ss[..], v[4][..], "model: x-wing secret vector");
        assert_eq!(crate::xwing::decaps(&sk, &ct), ss, "model: x-wing decapsulation");
        n += 1;
    }
    n
}

#[test]
fn models() {
    mlkem::self_check();
    crate::x25519::self_check();
    println!("{} {}", mlkem_vectors(), xwing_vectors());
}
