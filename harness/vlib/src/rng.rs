//! Deterministic byte streams used as alphabets.

/// SHAKE256(label): the base secrets of a run. Nothing random is used anywhere.
pub fn stream<const N: usize>(label: &str) -> [u8; N] {
    let mut o = [0; N];
    crate::keccak::Sponge::shake256().absorb(label.as_bytes()).squeeze(&mut o);
    o
}

/// The structured alphabet of 32-byte strings used throughout: index -> string.
/// 0..256: constant fills; then every value at every position over a zero background; then every
/// value at every position over the given dense background.
pub const B32_CONST: u64 = 256;
pub const B32_ONE: u64 = 32 * 255;
pub fn b32_len(dense: bool) -> u64 {
    B32_CONST + B32_ONE + if dense { B32_ONE } else { 0 }
}
pub fn b32(i: u64, background: &[u8; 32]) -> [u8; 32] {
    if i < B32_CONST {
        return [i as u8; 32];
    }
    let i = i - B32_CONST;
    let (mut o, j) = if i < B32_ONE { ([0u8; 32], i) } else { (*background, i - B32_ONE) };
    let (pos, delta) = ((j / 255) as usize, (j % 255 + 1) as u8);
    o[pos] ^= delta;
    o
}
