//! Reference models and exploration engine. Depends on nothing but std, and in particular on no
//! crate of the repository under test and no cryptographic library.
#[cfg(target_has_atomic = "64")]
pub mod engine;
pub mod keccak;
pub mod mlkem;
pub mod rng;
#[cfg(target_has_atomic = "64")]
pub mod sched;
pub mod vectors;
pub mod x25519;
pub mod xwing;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Abbreviated hex of a long string: first bytes, length and a digest.
pub fn brief(b: &[u8]) -> String {
    if b.len() <= 32 {
        return hex(b);
    }
    format!("{}..[{} bytes, sha3 {}]", hex(&b[..8]), b.len(), hex(&keccak::sha3_256(&[b])[..8]))
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => "equal".into(),
        Some(i) => format!("first difference at byte {i}: {:02x} != {:02x}", a[i], b[i]),
    }
}
