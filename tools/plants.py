"""Definitions of the planted bugs under /verif/seeded (see plant.py)."""
PLANTS = {}
KEM, ALG, ENC, CRY, PKE, CMP, UTL, PAR = ("ml-kem/src/%s.rs" % x for x in ("kem", "algebra", "encode", "crypto", "pke", "compress", "util", "param"))
XW, DH, ECDH, X25 = "x-wing/src/lib.rs", "dhkem/src/lib.rs", "dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"

PRE = """
#![allow(unused)]
use ml_kem::array::Array;
use ml_kem::kem::{Decapsulate, Encapsulate};
use ml_kem::{B32, EncapsulateDeterministic, EncodedSizeUser, KemCore, MlKem1024, MlKem512, MlKem768};
fn lcg(seed: u64) -> impl FnMut() -> u8 {
    let mut s = seed;
    move || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (s >> 33) as u8
    }
}
fn b32(seed: u64) -> B32 {
    let mut r = lcg(seed);
    Array::from_fn(|_| r())
}
"""


def plant(id, property, edits, main, needs, breaks, **kw):
    PLANTS[id] = dict(property=property, edits=edits, main=main, needs=needs, breaks=breaks, **kw)


plant("c01-zero-z", "C01", [(KEM, "        let z = z.clone();\n        Self { dk_pke, ek, z }",
"""        // never store an all-zero rejection seed
        let z = if z.iter().all(|&b| b == 0) { H(d) } else { z.clone() };
        Self { dk_pke, ek, z }""")], PRE + """
fn main() {
    let d = b32(1);
    for z in [B32::default(), b32(2)] {
        let (dk, _) = MlKem512::generate_deterministic(&d, &z);
        let b = dk.as_bytes();
        assert_eq!(&b[b.len() - 32..], &z[..], "the stored rejection seed is not z");
    }
}
""", "a rejection seed z of 32 zero bytes", "key generation stores H(d) instead of z when z is all zero")

plant("c02-hash-raw", "C02", [(KEM, "        Self::new(EncryptionKey::from_bytes(enc))",
"""        // hash the received bytes instead of encoding the parsed key again
        Self {
            ek_pke: EncryptionKey::from_bytes(enc),
            h: H(enc),
        }""")], PRE + """
type Ek = <MlKem768 as KemCore>::EncapsulationKey;
fn main() {
    let (_, ek) = MlKem768::generate_deterministic(&b32(1), &b32(2));
    let mut b = ek.as_bytes();
    // find a coefficient below 767 and add q to it
    let mut done = false;
    for i in 0..384 {
        let c = u16::from(b[3 * i]) | (u16::from(b[3 * i + 1] & 15) << 8);
        if c < 4096 - 3329 {
            let v = c + 3329;
            b[3 * i] = v as u8;
            b[3 * i + 1] = (b[3 * i + 1] & 0xf0) | (v >> 8) as u8;
            done = true;
            break;
        }
    }
    assert!(done);
    let parsed = Ek::from_bytes(&b);
    let again = Ek::from_bytes(&parsed.as_bytes());
    let m = b32(3);
    assert_eq!(parsed.encapsulate_deterministic(&m).unwrap(), again.encapsulate_deterministic(&m).unwrap());
}
""", "an encapsulation key with an unreduced 12-bit coefficient", "h is computed over the bytes as received, so an unreduced key does not behave as its reduction")

plant("c03-threshold", "C03", [(PKE, "        let mut w = &v - &sTu;\n        Encode::<U1>::encode(w.compress::<U1>())",
"""        let w = &v - &sTu;
        // a coefficient closer to q/2 than to 0 is a one bit
        let mut m = B32::default();
        for (i, x) in w.0.iter().enumerate() {
            let one = (832..2497).contains(&x.0);
            m[i >> 3] |= u8::from(one) << (i & 7);
        }
        m""")], """
// s = 0, so w = Decompress_4(v); v = 4 gives 832, which rounds to 0
fn main() {
    let dk = [0u8; 768];
    let mut ct = [0u8; 768];
    let q = 3329u32;
    for y in 0..16u32 {
        for b in &mut ct[640..] {
            *b = (y | y << 4) as u8;
        }
        let w = (y * q + 8) / 16;
        let bit = ((2 * w + q / 2) / q) & 1;
        let got = ml_kem::verif::hooks::pke_decrypt(2, &dk, &ct);
        assert_eq!(got, [if bit == 1 { 0xff } else { 0 }; 32], "v = {y}, w = {w}");
    }
}
""", "a decrypted coefficient that is exactly 832 (one past the rounding boundary)", "decryption decides the message bit by an interval that is off by one at its lower end", hooks=True)

plant("c04-chunked-compare", "C04", [(KEM, """        let equal = cp
            .iter()
            .zip(encapsulated_key.iter())
            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0xff, |x, y| x & y);""",
"""        // compare `u` three words at a time, so that the compiler can vectorise, then `v`
        let mut diff = [0u8; 24];
        let (u0, v0) = P::split_ct(&cp);
        let (u1, v1) = P::split_ct(encapsulated_key);
        for (x, y) in u0.chunks_exact(24).zip(u1.chunks_exact(24)) {
            for (d, (x, y)) in diff.iter_mut().zip(x.iter().zip(y)) {
                *d |= x ^ y;
            }
        }
        let equal = diff
            .iter()
            .copied()
            .chain(v0.iter().zip(v1.iter()).map(|(x, y)| x ^ y))
            .fold(0xff, |e, d| e & constant_time_eq(d, 0));""")], PRE + """
fn main() {
    let (dk, ek) = MlKem1024::generate_deterministic(&b32(1), &b32(2));
    let (ct, k) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    assert_eq!(dk.decapsulate(&ct).unwrap(), k);
    for i in 0..ct.len() {
        let mut c = ct.clone();
        c[i] ^= 1;
        assert_ne!(dk.decapsulate(&c).unwrap(), k, "byte {i}");
    }
}
""", "ML-KEM-512 or -1024 and a change confined to the last 16 bytes of u that does not change the decrypted message", "the re-encryption check ignores the tail of u that does not fill a block of 24 bytes")

plant("c04-sum-diff", "C04", [(KEM, """            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0xff, |x, y| x & y);""",
"""            .map(|(&x, &y)| x ^ y)
            .fold(0u8, |acc, d| acc.wrapping_add(d));
        let equal = constant_time_eq(equal, 0);""")], PRE + """
fn main() {
    let (dk, ek) = MlKem768::generate_deterministic(&b32(1), &b32(2));
    let (ct, k) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    assert_eq!(dk.decapsulate(&ct).unwrap(), k);
    let mut c = ct.clone();
    c[3] ^= 0x80;
    c[703] ^= 0x80;
    assert_ne!(dk.decapsulate(&c).unwrap(), k);
    c[3] ^= 0x80;
    assert_ne!(dk.decapsulate(&c).unwrap(), k);
}
""", "two or more altered ciphertext bytes whose differences sum to 0 modulo 256", "byte differences are summed instead of OR-ed, so cancelling differences are accepted as honest")

plant("c05-boundary", "C05", [(ENC, "                vj.0 %= FieldElement::Q;",
"""                // at most 4095, so a single conditional subtraction suffices
                if vj.0 > FieldElement::Q {
                    vj.0 -= FieldElement::Q;
                }""")], PRE + """
type Ek = <MlKem512 as KemCore>::EncapsulationKey;
fn main() {
    for v in [0u16, 1, 3328, 3329, 3330, 4095] {
        let (_, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
        let mut b = ek.as_bytes();
        b[0] = v as u8;
        b[1] = (b[1] & 0xf0) | (v >> 8) as u8;
        let out = Ek::from_bytes(&b).as_bytes();
        let w = u16::from(out[0]) | (u16::from(out[1] & 15) << 8);
        assert_eq!(w, v % 3329);
    }
}
""", "an encoded 12-bit coefficient equal to exactly q = 3329", "parsing leaves q unreduced, so the byte comparison that decides the modulus check accepts it")

plant("c06-dk-eq", "C06", [(KEM, """#[derive(Clone, Debug, PartialEq)]
pub struct DecapsulationKey<P>""", """#[derive(Clone, Debug)]
pub struct DecapsulationKey<P>"""), (KEM, """#[cfg(feature = "zeroize")]
impl<P> Drop for DecapsulationKey<P>""", """impl<P> PartialEq for DecapsulationKey<P>
where
    P: KemParams,
{
    fn eq(&self, other: &Self) -> bool {
        // the key pair determines the key; `z` is only used to reject
        self.dk_pke == other.dk_pke && self.ek == other.ek
    }
}

#[cfg(feature = "zeroize")]
impl<P> Drop for DecapsulationKey<P>""")], PRE + """
fn main() {
    let (a, _) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let (b, _) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let (c, _) = MlKem512::generate_deterministic(&b32(1), &b32(3));
    assert!(a == b);
    assert!(a != c, "keys that reject differently compare equal");
}
""", "two decapsulation keys that differ only in z", "equality ignores the rejection seed")

XWDEPS = 'x-wing = { path = "@REPO@/x-wing", features = ["getrandom"] }\nml-kem = { path = "@REPO@/ml-kem", features = ["deterministic"] }\nkem = "0.3.0-pre.0"\nrand_core = "0.6"'
plant("c06-ct-eq", "C06", [(XW, "#[derive(Clone, PartialEq, Eq)]\n#[cfg_attr(feature = \"zeroize\", derive(Zeroize, ZeroizeOnDrop))]\npub struct Ciphertext {",
"#[derive(Clone)]\n#[cfg_attr(feature = \"zeroize\", derive(Zeroize, ZeroizeOnDrop))]\npub struct Ciphertext {"),
(XW, "impl Ciphertext {\n", """impl PartialEq for Ciphertext {
    fn eq(&self, other: &Self) -> bool {
        self.ct_m == other.ct_m
            && x25519_dalek::PublicKey::from(self.ct_x) == x25519_dalek::PublicKey::from(other.ct_x)
    }
}

impl Eq for Ciphertext {}

impl Ciphertext {
""")], """
fn main() {
    let mut b = [7u8; x_wing::CIPHERTEXT_SIZE];
    let a = x_wing::Ciphertext::from(&b);
    assert!(a == x_wing::Ciphertext::from(&b));
    b[1119] ^= 0x80;
    assert!(a != x_wing::Ciphertext::from(&b), "different bytes compare equal");
}
""", "two ciphertexts whose X25519 parts are different encodings of one curve point (top bit, or non-canonical)", "ciphertexts that decapsulate to different secrets compare equal", deps=XWDEPS)

plant("c07-lazy-dot", "C07", [(ALG, "    const BARRETT_SHIFT: usize = 24;", "    const BARRETT_SHIFT: usize = 26;"),
(ALG, """        self.0
            .iter()
            .zip(rhs.0.iter())
            .map(|(x, y)| x * y)
            .fold(NttPolynomial::default(), |x, y| &x + &y)""",
"""        // Sum the products of all K terms before reducing: 2 * K * (q-1)^2 fits easily in 32 bits.
        let mut out = NttPolynomial::default();
        for i in 0..128 {
            let g = u32::from(GAMMA[i].0);
            let (mut c0, mut c1) = (0u32, 0u32);
            for (x, y) in self.0.iter().zip(rhs.0.iter()) {
                let a0 = u32::from(x.0[2 * i].0);
                let a1 = u32::from(x.0[2 * i + 1].0);
                let b0 = u32::from(y.0[2 * i].0);
                let b1 = u32::from(y.0[2 * i + 1].0);
                let b1g = u32::from(FieldElement::barrett_reduce(b1 * g));
                c0 += a0 * b0 + a1 * b1g;
                c1 += a0 * b1 + a1 * b0;
            }
            out.0[2 * i] = FieldElement(FieldElement::barrett_reduce(c0));
            out.0[2 * i + 1] = FieldElement(FieldElement::barrett_reduce(c1));
        }
        out""")], """
use ml_kem::verif::hooks::ntt_dot;
fn main() {
    for a in 3200..3329u16 {
        let x = vec![[a; 256]; 4];
        let y = vec![[3328u16; 256]; 4];
        let got = ntt_dot(&x, &y);
        let want = (8 * u32::from(a) * 3328 % 3329) as u16;
        for i in 0..128 {
            assert_eq!(got[2 * i + 1], want, "a = {a}");
        }
    }
}
""", "rank 4 and operands so large that the lazily accumulated sum exceeds what the Barrett constant can reduce (about 8 standard deviations above typical)", "the deferred reduction returns values that are not reduced, for extreme operands only; the larger Barrett shift hides it for ordinary ones", hooks=True)

plant("c08-one-squeeze", "C08", [(ALG, "    xof: &'a mut dyn XofReader,\n    data: [u8; 96],", "    xof: &'a mut dyn XofReader,\n    data: [u8; 672],"),
(ALG, "            data: [0u8; 96],", "            data: [0u8; 672],"),
(ALG, """            if self.start == self.data.len() {
                self.xof.read(&mut self.data);
                self.start = 0;
            }
""", """            // 672 bytes yield 256 values with overwhelming probability; top up one block otherwise
            if self.start == self.data.len() {
                self.xof.read(&mut self.data[..168]);
                self.start = 0;
            }
""")], """
use sha3::digest::XofReader;
struct S(usize, usize);
impl XofReader for S {
    fn read(&mut self, b: &mut [u8]) {
        for x in b {
            // 0xff candidates are rejected; after `self.1` bytes candidates count upwards
            let i = self.0;
            *x = if i < self.1 { 0xff } else {
                let j = i - self.1;
                let (g, p) = (j / 3, j % 3);
                let (a, b) = ((2 * g % 3000) as u16, ((2 * g + 1) % 3000) as u16);
                [a as u8, (a >> 8) as u8 | (b << 4) as u8, (b >> 4) as u8][p]
            };
            self.0 += 1;
        }
    }
}
fn main() {
    for r in [0, 96, 288, 300, 600, 672, 900, 1200] {
        let got = ml_kem::verif::hooks::sample_uniform(&mut S(0, r));
        let want: [u16; 256] = core::array::from_fn(|i| (i % 3000) as u16);
        assert_eq!(got, want, "{r} rejected bytes");
    }
}
""", "an XOF stream with so many rejections that a fourth SHAKE block plus a refill is used up (more than 840 bytes)", "after the refill of one block the reader runs on into stale bytes of the buffer", hooks=True,
deps='ml-kem = { path = "@REPO@/ml-kem", features = ["deterministic"] }\nsha3 = { version = "0.10.8", default-features = false }')

plant("c09-zero-run", "C09", [(ALG, "        let vals: Polynomial = Encode::<Eta::SampleSize>::decode(B);\n        Self(vals.0.iter().map(|val| Eta::ONES[val.0 as usize]).collect())",
"""        // stop decoding at the end of the sampled data
        let end = B
            .chunks(8)
            .position(|w| w.iter().all(|&b| b == 0))
            .map_or(B.len(), |i| 8 * i);
        let mut data = PrfOutput::<Eta>::default();
        data[..end].copy_from_slice(&B[..end]);
        let vals: Polynomial = Encode::<Eta::SampleSize>::decode(&data);
        Self(vals.0.iter().map(|val| Eta::ONES[val.0 as usize]).collect())""")], """
use ml_kem::verif::hooks::{sample_cbd2, sample_cbd3};
fn main() {
    let mut b = [0x11u8; 128];
    b[8..16].fill(0);
    let c = sample_cbd2(&b);
    assert!(c[32..].iter().all(|&x| x == 1), "coefficients after a zero word are lost");
    assert_eq!(sample_cbd3(&[0xff; 192]), [0; 256]);
}
""", "a pseudorandom input with eight aligned zero bytes in a row (probability 2^-60 per polynomial)", "every coefficient after such a word is zero", hooks=True)

plant("c10-width9", "C10", [(ENC, """        let mut x = 0u128;
        for (j, vj) in v.iter().enumerate() {
            x |= u128::from(vj.0) << (D::USIZE * j);
        }

        let xb = x.to_le_bytes();""", """        // up to eight values of one byte or so fit in a machine word
        let mut xb = [0u8; 16];
        if D::USIZE < 10 {
            let mut x = 0u64;
            for (j, vj) in v.iter().enumerate() {
                x |= u64::from(vj.0) << (D::USIZE * j);
            }
            xb[..8].copy_from_slice(&x.to_le_bytes());
        } else {
            let mut x = 0u128;
            for (j, vj) in v.iter().enumerate() {
                x |= u128::from(vj.0) << (D::USIZE * j);
            }
            xb.copy_from_slice(&x.to_le_bytes());
        }
""")], """
use ml_kem::verif::hooks::{byte_decode, byte_encode};
fn main() {
    for d in 1..=11 {
        let v: [u16; 256] = core::array::from_fn(|i| (i as u16 * 37 + 5) & ((1 << d) - 1));
        let mut out = [0u8; 384];
        let n = byte_encode(d, &v, &mut out);
        assert_eq!(n, 32 * d);
        for (i, &x) in v.iter().enumerate() {
            for b in 0..d {
                let p = i * d + b;
                assert_eq!((out[p / 8] >> (p % 8)) & 1, ((x >> b) & 1) as u8, "width {d}");
            }
        }
        assert_eq!(byte_decode(d, &out[..n]), v, "width {d}");
    }
}
""", "width 9 (a user-defined parameter set), the last value of each group of eight", "the high bits of every eighth value are lost at width 9", hooks=True)

plant("c11-ignored-failure", "C11", [(CRY, "    rng.fill_bytes(&mut val);\n    val", "    // generators without a source of their own never fail\n    let _ = rng.try_fill_bytes(&mut val);\n    val")], PRE + """
use rand_core::{CryptoRng, Error, RngCore};
struct R(u32);
impl RngCore for R {
    fn next_u32(&mut self) -> u32 { 4 }
    fn next_u64(&mut self) -> u64 { 4 }
    fn fill_bytes(&mut self, b: &mut [u8]) { self.try_fill_bytes(b).expect("generator") }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        if self.0 == 0 { return Err(Error::from(core::num::NonZeroU32::new(77777).unwrap())); }
        self.0 -= 1;
        b.fill(9);
        Ok(())
    }
}
impl CryptoRng for R {}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let ek = MlKem512::generate(&mut R(2)).1;
    assert!(ek.encapsulate(&mut R(1)).is_ok());
    for n in 0..2 {
        let r = std::panic::catch_unwind(|| MlKem512::generate(&mut R(n)).1.as_bytes());
        if r.is_ok() { eprintln!("a key from a failed generator"); std::process::exit(1); }
    }
    let r = std::panic::catch_unwind(move || ek.encapsulate(&mut R(0)).map(|x| x.1).ok());
    if matches!(r, Ok(Some(_))) { eprintln!("a secret from a failed generator"); std::process::exit(1); }
}
""", "a random generator that fails", "a failing generator yields keys and secrets made of zero bytes instead of no result")

plant("c12-matrix-cache", "C12", [(ALG, """            let (i, j) = if transpose { (j, i) } else { (i, j) };
            let mut xof = XOF(rho, j.truncate(), i.truncate());
            NttPolynomial::sample_uniform(&mut xof)
""", """            let (i, j) = if transpose { (j, i) } else { (i, j) };
            cached_entry(rho, i.truncate(), j.truncate())
"""), (ALG, "impl<K: ArraySize> NttVector<K> {\n    pub fn sample_uniform(", """/// The most recently expanded first entry of a matrix: key generation followed by encapsulation or
/// decapsulation with the same key needs it again.
mod cache {
    use core::sync::atomic::{AtomicU16, AtomicU8, Ordering::*};
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO8: AtomicU8 = AtomicU8::new(0);
    #[allow(clippy::declare_interior_mutable_const)]
    const ZERO16: AtomicU16 = AtomicU16::new(0);
    static VALID: AtomicU8 = ZERO8;
    static SEED: [AtomicU8; 32] = [ZERO8; 32];
    static ENTRY: [AtomicU16; 256] = [ZERO16; 256];

    pub(super) fn get(rho: &[u8]) -> Option<[u16; 256]> {
        if VALID.load(Acquire) == 0 || SEED.iter().zip(rho).any(|(x, &y)| x.load(Acquire) != y) {
            return None;
        }
        Some(core::array::from_fn(|i| ENTRY[i].load(Acquire)))
    }

    pub(super) fn put(rho: &[u8], entry: impl Iterator<Item = u16>) {
        // only one writer at a time; give up if there is another
        if VALID.swap(0, AcqRel) == 0 && SEED[0].load(Acquire) != 0 {
            return;
        }
        for (x, y) in ENTRY.iter().zip(entry) {
            x.store(y, Release);
        }
        for (x, &y) in SEED.iter().zip(rho) {
            x.store(y, Release);
        }
        VALID.store(1, Release);
    }
}

fn cached_entry(rho: &B32, i: u8, j: u8) -> NttPolynomial {
    if i == 0 && j == 0 {
        if let Some(x) = cache::get(rho) {
            return NttPolynomial(Array::from_fn(|i| FieldElement(x[i])));
        }
    }
    let mut xof = XOF(rho, j, i);
    let out = NttPolynomial::sample_uniform(&mut xof);
    if i == 0 && j == 0 {
        cache::put(rho, out.0.iter().map(|x| x.0));
    }
    out
}

impl<K: ArraySize> NttVector<K> {
    pub fn sample_uniform(""")], PRE + """
fn main() {
    let keys: Vec<_> = (0..8).map(|i| MlKem512::generate_deterministic(&b32(i), &b32(99)).1).collect();
    let m = b32(1);
    let want: Vec<_> = keys.iter().map(|k| k.encapsulate_deterministic(&m).unwrap()).collect();
    let t = std::time::Instant::now();
    std::thread::scope(|s| {
        for (k, w) in keys.iter().zip(&want) {
            s.spawn(move || {
                while t.elapsed().as_secs() < 20 {
                    for _ in 0..3 {
                        if k.encapsulate_deterministic(&m).unwrap() != *w {
                            eprintln!("a concurrent encapsulation changed the result");
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
    });
}
""", "two threads working with different keys, one replacing the cached matrix entry between the other's check of the cached seed and its reading of the entry", "a cached matrix entry is read without checking afterwards that it is still the one of the seed that was compared")

plant("c12-seed-tag", "C12", [(XW, """        let (_sk_m, _sk_x, pk_m, pk_x) = self.expand_key();
        EncapsulationKey { pk_m, pk_x }""", """        // The X25519 half of the last key asked for: callers often ask several times in a row.
        use core::sync::atomic::{AtomicU64, Ordering::Relaxed};
        #[allow(clippy::declare_interior_mutable_const)]
        const ZERO: AtomicU64 = AtomicU64::new(0);
        static LAST: [AtomicU64; 6] = [ZERO; 6];
        let word = |b: &[u8], i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap_or_default());
        let (_sk_m, _sk_x, pk_m, pk_x) = self.expand_key();
        let tag = [word(&self.sk, 0) ^ word(&self.sk, 2), word(&self.sk, 1) ^ word(&self.sk, 3)];
        if tag != [0, 0] && (0..2).all(|i| LAST[i].load(Relaxed) == tag[i]) {
            let mut b = [0u8; 32];
            for i in 0..4 {
                b[8 * i..8 * i + 8].copy_from_slice(&LAST[2 + i].load(Relaxed).to_le_bytes());
            }
            return EncapsulationKey { pk_m, pk_x: b.into() };
        }
        for i in 0..2 {
            LAST[i].store(tag[i], Relaxed);
        }
        for i in 0..4 {
            LAST[2 + i].store(word(pk_x.as_bytes(), i), Relaxed);
        }
        EncapsulationKey { pk_m, pk_x }""")], """
fn main() {
    let mut a = [7u8; 32];
    a[5] = 9;
    let mut b = a;
    b[0] ^= 1;
    b[16] ^= 1;
    let ka = x_wing::DecapsulationKey::from(a);
    let kb = x_wing::DecapsulationKey::from(b);
    let pa = ka.encapsulation_key().as_bytes();
    let pb = kb.encapsulation_key().as_bytes();
    assert!(pa[1184..] != pb[1184..], "two different keys have one X25519 key");
}
""", "two seeds whose halves have the same exclusive-or, used one after the other", "a cached X25519 public key is returned for a different seed with the same 16-byte tag", deps=XWDEPS)

plant("c12-not-sync", "C12", [(XW, "pub struct DecapsulationKey {\n    sk: [u8; DECAPSULATION_KEY_SIZE],\n}", "pub struct DecapsulationKey {\n    sk: [u8; DECAPSULATION_KEY_SIZE],\n    #[cfg_attr(feature = \"zeroize\", zeroize(skip))]\n    uses: core::cell::Cell<u32>,\n}"),
(XW, "        let sk = generate(rng);\n        DecapsulationKey { sk }", "        let sk = generate(rng);\n        DecapsulationKey::from(sk)"),
(XW, "    fn from(sk: [u8; DECAPSULATION_KEY_SIZE]) -> Self {\n        DecapsulationKey { sk }", "    fn from(sk: [u8; DECAPSULATION_KEY_SIZE]) -> Self {\n        DecapsulationKey {\n            sk,\n            uses: core::cell::Cell::new(0),\n        }"),
(XW, "        let (sk_m, sk_x, _pk_m, pk_x) = self.expand_key();\n", "        let (sk_m, sk_x, _pk_m, pk_x) = self.expand_key();\n        self.uses.set(self.uses.get().saturating_add(1));\n")], """
use kem::Decapsulate;
fn main() {
    // does not compile unless a key can be shared between threads
    let key = x_wing::DecapsulationKey::from([1; 32]);
    let ct = x_wing::Ciphertext::from(&[2; x_wing::CIPHERTEXT_SIZE]);
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| key.decapsulate(&ct).unwrap());
        }
    });
}
""", "code that shares an X-Wing decapsulation key between threads", "the key gained a Cell, so it is no longer Sync (a programme sharing it stops compiling)", deps=XWDEPS)

ZD = 'ml-kem = { path = "@REPO@/ml-kem", features = ["deterministic", "zeroize"] }\nrand_core = "0.6"\nzeroize = { version = "1.8", default-features = false }\nx-wing = { path = "@REPO@/x-wing", features = ["zeroize"] }\nkem = "0.3.0-pre.0"'
RESID = """
/// The bytes an object leaves behind when it is dropped in place.
fn residue<T>(x: T) -> Vec<u8> {
    let mut b = Box::new(std::mem::MaybeUninit::<T>::uninit());
    b.write(x);
    let p = std::hint::black_box(b.as_mut_ptr());
    unsafe { std::ptr::drop_in_place(p) };
    std::hint::black_box(());
    (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile((p as *const u8).add(i)) }).collect()
}
"""
plant("c13-last-poly", "C13", [(ALG, "        for poly in self.0.iter_mut() {\n            poly.zeroize();\n        }", "        // the secret polynomials\n        for poly in self.0.iter_mut().take(3) {\n            poly.zeroize();\n        }")], PRE + RESID + """
fn main() {
    let (a, _) = MlKem1024::generate_deterministic(&b32(1), &b32(2));
    let first = u16::from_le_bytes({ let b = a.as_bytes(); [b[3 * 384], b[3 * 384 + 1] & 15] });
    let r = residue(a.clone());
    // the last secret polynomial occupies bytes 1536..2048 of a ML-KEM-1024 secret vector
    let all: Vec<u8> = a.as_bytes()[3 * 384..4 * 384].to_vec();
    let coeffs: Vec<u8> = (0..128).flat_map(|i| {
        let b = &all[3 * i..3 * i + 3];
        let x = u16::from(b[0]) | (u16::from(b[1] & 15) << 8);
        let y = u16::from(b[1] >> 4) | (u16::from(b[2]) << 4);
        [x.to_le_bytes(), y.to_le_bytes()].concat()
    }).collect();
    assert!(!r.windows(64).any(|w| w == &coeffs[..64]), "a secret polynomial survives ({first})");
}
""", "ML-KEM-1024", "the fourth secret polynomial is not erased", deps=ZD)

plant("c13-plain-store", "C13", [(XW, """#[derive(Clone)]
#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
#[cfg_attr(test, derive(PartialEq, Eq))]
""", """#[derive(Clone)]
#[cfg_attr(feature = "zeroize", derive(Zeroize))]
#[cfg_attr(test, derive(PartialEq, Eq))]
"""), (XW, "impl Decapsulate<Ciphertext, SharedSecret> for DecapsulationKey {", """#[cfg(feature = "zeroize")]
impl Drop for DecapsulationKey {
    #[inline]
    fn drop(&mut self) {
        self.sk = [0; DECAPSULATION_KEY_SIZE];
    }
}

#[cfg(feature = "zeroize")]
impl ZeroizeOnDrop for DecapsulationKey {}

impl Decapsulate<Ciphertext, SharedSecret> for DecapsulationKey {""")], PRE + """
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
// underneath the default allocator, so that the optimiser treats freeing as in any programme
extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
    fn malloc_usable_size(p: *mut u8) -> usize;
}
static AT: AtomicUsize = AtomicUsize::new(0);
static FOUND: AtomicUsize = AtomicUsize::new(0);
const Z: [u8; 32] = *b"the secret seed of this demo !!!";
#[no_mangle]
unsafe extern "C" fn malloc(n: usize) -> *mut u8 { __libc_malloc(n) }
#[no_mangle]
unsafe extern "C" fn free(p: *mut u8) {
    if p as usize == AT.load(SeqCst) && !p.is_null() {
        let mut run = 0;
        for i in 0..malloc_usable_size(p) {
            run = if p.add(i).read_volatile() == Z[run % 32] { run + 1 } else { 0 };
            if run == 32 {
                FOUND.fetch_add(1, SeqCst);
                run = 0;
            }
        }
    }
    __libc_free(p)
}
#[inline(never)]
fn finish<T>(x: Box<T>) {}
fn main() {
    let a = Box::new(x_wing::DecapsulationKey::from(Z));
    AT.store(&*a as *const _ as usize, SeqCst);
    finish(a);
    AT.store(0, SeqCst);
    assert_eq!(FOUND.load(SeqCst), 0, "the seed survives");
}
""", "an optimised build, in which the final plain store is dead", "the X-Wing seed is overwritten with an ordinary store, which the optimiser removes", deps=ZD)

plant("c13-skip", "C13", [(XW, "    ct_m: ArrayN<u8, 1088>,\n    ct_x: [u8; 32],\n}\n\nimpl Ciphertext {", "    ct_m: ArrayN<u8, 1088>,\n    #[cfg_attr(feature = \"zeroize\", zeroize(skip))]\n    ct_x: [u8; 32],\n}\n\nimpl Ciphertext {")], RESID + """
fn main() {
    let b = [0xa5u8; x_wing::CIPHERTEXT_SIZE];
    let r = residue(x_wing::Ciphertext::from(&b));
    assert!(!r.windows(8).any(|w| w == [0xa5; 8]), "the ciphertext survives");
}
""", "the zeroize feature", "the X25519 part of a ciphertext is skipped when it is erased", deps=ZD)

plant("c14-ne-bytes", "C14", [(ENC, "            let xb = x.to_le_bytes();" if False else "        let xb = x.to_le_bytes();", "        let xb = x.to_ne_bytes();")], PRE + """
// interpreted for a big-endian target
fn main() {
    let (_, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let b = ek.as_bytes();
    let sum: u64 = b.iter().fold(0u64, |a, &x| a.wrapping_mul(31).wrapping_add(u64::from(x)));
    println!("{sum:016x}");
}
""", "a big-endian target", "packing uses the target's byte order", cargo="+nightly miri run --target s390x-unknown-linux-gnu", post=' > be.txt 2> err.txt || { cat err.txt; [ -s be.txt ] || exit 1; }\nCARGO_TARGET_DIR="$w/target" cargo run --release --offline -q > le.txt || exit 1\ncmp be.txt le.txt')

plant("c14-features", "C14", [(KEM, "        let d: B32 = rand(rng);\n        let z: B32 = rand(rng);\n        Self::generate_deterministic(&d, &z)",
"""        #[cfg(feature = "deterministic")]
        let (d, z) = (rand(rng), rand(rng));
        // one call to the generator suffices where nobody fixes the seeds separately
        #[cfg(not(feature = "deterministic"))]
        let (z, d): (B32, B32) = rand::<hybrid_array::typenum::U64>(rng).split();
        Self::generate_deterministic(&d, &z)""")], """
use ml_kem::{EncodedSizeUser, KemCore, MlKem512};
use rand_core::{CryptoRng, Error, RngCore};
struct R(u8);
impl RngCore for R {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = self.0; self.0 += 1; } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.fill_bytes(b); Ok(()) }
}
impl CryptoRng for R {}
fn main() {
    let (dk, _) = MlKem512::generate(&mut R(0));
    let b = dk.as_bytes();
    let z: Vec<u8> = (32..64).collect();
    assert_eq!(&b[b.len() - 32..], &z[..], "z is not the second half of the randomness");
}
""", "building without the deterministic feature (the test suite enables every feature)", "without the feature the two seeds are exchanged", deps='ml-kem = { path = "@REPO@/ml-kem" }\nrand_core = "0.6"')

plant("c14-assert-effect", "C14", [(ALG, "            if self.start == self.data.len() {\n                self.xof.read(&mut self.data);\n                self.start = 0;\n            }\n",
"""            if self.start == self.data.len() {
                debug_assert!(self.refill());
                self.start = 0;
            }
"""), (ALG, "    fn next(&mut self) -> FieldElement {", """    fn refill(&mut self) -> bool {
        self.xof.read(&mut self.data);
        !self.data.is_empty()
    }

    fn next(&mut self) -> FieldElement {""")], PRE + """
fn main() {
    let a = MlKem512::generate_deterministic(&B32::default(), &B32::default()).1.as_bytes();
    let sum: u64 = a.iter().fold(0u64, |a, &x| a.wrapping_mul(31).wrapping_add(u64::from(x)));
    println!("{sum:016x}");
}
""", "a build without debug assertions", "the sampling buffer is refilled inside debug_assert!, so release builds reuse old bytes", cargo="run --release", post=' > r.txt || exit 1\nCARGO_TARGET_DIR="$w/target" cargo run --offline -q > d.txt || exit 1\ncmp r.txt d.txt')

DHDEPS = 'dhkem = { path = "@REPO@/dhkem", features = ["k256", "p256", "p384", "p521", "x25519"] }\nkem = "0.3.0-pre.0"\nrand_core = "0.6"\nelliptic-curve = { version = "0.13.8", default-features = false, features = ["sec1", "ecdh"] }\nx25519-dalek = { version = "2.0.1", default-features = false }\nx-wing = { path = "@REPO@/x-wing", features = ["getrandom"] }\nml-kem = { path = "@REPO@/ml-kem", features = ["deterministic"] }'
TAPE = PRE + """
use rand_core::{CryptoRng, Error, RngCore};
struct Tape(Vec<u8>);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { 4 }
    fn next_u64(&mut self) -> u64 { 4 }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b { *x = self.0.remove(0); }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> { self.fill_bytes(b); Ok(()) }
}
impl CryptoRng for Tape {}
fn tape(seed: u64, n: usize) -> Tape {
    let mut r = lcg(seed);
    Tape((0..n).map(|_| r()).collect())
}
"""

plant("c15-pair-index", "C15", [(ALG, """            let end = self.start + 3;
            let b = &self.data[self.start..end];
            self.start = end;

            let d1 = Integer::from(b[0]) + ((Integer::from(b[1]) & 0xf) << 8);
            let d2 = (Integer::from(b[1]) >> 4) + ((Integer::from(b[2]) as Integer) << 4);
""", """            // one load for both candidates
            #[allow(unsafe_code)]
            let w = u32::from_le(unsafe {
                self.data.as_ptr().add(self.start).cast::<u32>().read_unaligned()
            });
            self.start += 3;

            let d1 = (w & 0xfff) as Integer;
            let d2 = ((w >> 12) & 0xfff) as Integer;
""")], PRE + """
// interpreted: the result is right, the access is not
fn main() {
    let (dk, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    assert_ne!(dk.as_bytes()[0..8], ek.as_bytes()[0..8]);
}
""", "every matrix sample reads one byte behind its buffer at the buffer's end (results are right; seen by a sanitizer or interpreter)", "the last candidate pair of every buffer is loaded with a byte from outside the buffer", cargo="+nightly miri run")

plant("c15-low-order", "C15", [(XW, "        let ss = combiner(&ss_m, &ss_x, &ct.ct_x, &pk_x);", """        // RFC 7748, section 6.1
        assert!(ss_x.iter().fold(0, |a, b| a | b) != 0, "no contribution");
        let ss = combiner(&ss_m, &ss_x, &ct.ct_x, &pk_x);""")], TAPE + """
fn main() {
    for b in [1u8, 0] {
        let mut c = [7u8; x_wing::CIPHERTEXT_SIZE];
        c[1088..].fill(0);
        c[1088] = b;
        let k = x_wing::DecapsulationKey::from([3; 32]);
        let s = k.decapsulate(&x_wing::Ciphertext::from(&c)).unwrap();
        assert_ne!(s, [0; 32]);
    }
}
""", "a ciphertext whose X25519 part is a point of low order", "decapsulating an adversarial ciphertext panics", deps=XWDEPS)

plant("c15-recursion", "C15", [(ALG, """            if d2 < FieldElement::Q {
                return FieldElement(d2);
            }
        }
    }
}
""", """            if d2 < FieldElement::Q {
                return FieldElement(d2);
            }
            rejected += 1;
            // 2^-4.8 each: more in a row never happen
            assert!(rejected < 5, "the stream is not random");
        }
    }
}
"""), (ALG, """        loop {
            if self.start == self.data.len() {""", """        let mut rejected = 0;
        loop {
            if self.start == self.data.len() {""")], PRE + """
fn main() {
    // a matrix seed with five rejected pairs in a row exists among these
    for i in 0..200_000u64 {
        let mut b: ml_kem::Encoded<<MlKem512 as KemCore>::EncapsulationKey> = Array::from_fn(|_| 0);
        b[768..776].copy_from_slice(&i.to_le_bytes());
        let ek = <MlKem512 as KemCore>::EncapsulationKey::from_bytes(&b);
        ek.encapsulate_deterministic(&b32(4)).unwrap();
    }
}
""", "a matrix seed whose stream holds ten rejected candidates in a row (about one polynomial in a hundred thousand)", "sampling gives up with a panic")

plant("c16-mask-pk", "C16", [(XW, "    hasher.update(pk_x.as_bytes());", """    // the top bit is not part of the coordinate
    let mut pk_x = pk_x.to_bytes();
    pk_x[31] &= 0x7f;
    hasher.update(pk_x);""")], TAPE + """
fn main() {
    let (d, e) = x_wing::generate_key_pair(&mut tape(1, 32));
    let mut b = e.as_bytes();
    b[1215] ^= 0x80;
    let e2 = x_wing::EncapsulationKey::from(&b);
    let (_, a) = e.encapsulate(&mut tape(2, 64)).unwrap();
    let (_, b) = e2.encapsulate(&mut tape(2, 64)).unwrap();
    assert_ne!(a, b, "the X25519 key is not bound as transmitted");
}
""", "an X-Wing public key whose last bit is set", "the combiner hashes the X25519 key without its top bit", deps=XWDEPS)

plant("c16-clamped-share", "C16", [(XW, "        let ek_x: SharedSecret = generate(rng);\n        let ct_x = x25519(ek_x, X25519_BASEPOINT_BYTES);", """        let mut ek_x: SharedSecret = generate(rng);
        // an ephemeral key must not be the all-zero string
        if ek_x.iter().all(|&b| b == 0) {
            ek_x = generate(rng);
        }
        let ct_x = x25519(ek_x, X25519_BASEPOINT_BYTES);""")], TAPE + """
fn main() {
    let (d, e) = x_wing::generate_key_pair(&mut tape(1, 32));
    let mut t = tape(2, 32);
    t.0.extend([0; 32]);
    t.0.extend([9; 32]);
    let (c, _) = e.encapsulate(&mut t).unwrap();
    assert_eq!(t.0.len(), 32, "too many random bytes drawn");
}
""", "an ephemeral X25519 secret of 32 zero bytes", "64 given bytes do not give the specified ciphertext: other bytes are drawn", deps=XWDEPS)

plant("c17-canonical-ct", "C17", [(XW, "        let ss_x = x25519(sk_x.to_bytes(), ct.ct_x);\n        let ss = combiner(&ss_m, &ss_x, &ct.ct_x, &pk_x);", """        let ss_x = x25519(sk_x.to_bytes(), ct.ct_x);
        // bind the point, not its encoding: values of 2^255 - 19 and above are reduced
        let mut ct_x = ct.ct_x;
        ct_x[31] &= 0x7f;
        if ct_x[0] >= 0xed && ct_x[1..31].iter().all(|&b| b == 0xff) && ct_x[31] == 0x7f {
            ct_x[0] -= 0xed;
            ct_x[1..].fill(0);
        }
        let ss = combiner(&ss_m, &ss_x, &ct_x, &pk_x);""")], TAPE + """
fn main() {
    let (d, e) = x_wing::generate_key_pair(&mut tape(1, 32));
    let (c, k) = e.encapsulate(&mut tape(2, 64)).unwrap();
    let mut b = c.as_bytes();
    b[1119] ^= 0x80;
    let k2 = d.decapsulate(&x_wing::Ciphertext::from(&b)).unwrap();
    assert_ne!(k, k2, "an altered ciphertext gives the honest secret");
}
""", "a ciphertext whose X25519 part is another encoding of the honest point", "an altered ciphertext decapsulates to the honest secret", deps=XWDEPS)

plant("c17-retry-zero", "C17", [(XW, "        let ss_x = x25519(sk_x.to_bytes(), ct.ct_x);\n        let ss = combiner", """        let mut ss_x = x25519(sk_x.to_bytes(), ct.ct_x);
        // never hash a secret that everybody knows
        if ss_x == [0; 32] {
            ss_x = self.sk;
        }
        let ss = combiner""")], TAPE + """
use sha3::Digest;
fn main() {
    let (d, e) = x_wing::generate_key_pair(&mut tape(1, 32));
    let (c, _) = e.encapsulate(&mut tape(2, 64)).unwrap();
    let mut b = c.as_bytes();
    b[1088..].fill(0);
    let got = d.decapsulate(&x_wing::Ciphertext::from(&b)).unwrap();
    // the specification
    use sha3::digest::{ExtendableOutput, Update, XofReader};
    let mut x = sha3::Shake128::default();
    Update::update(&mut x, d.as_bytes());
    let mut o = [0u8; 96];
    x.finalize_xof().read(&mut o);
    let (sk, _) = MlKem768::generate_deterministic(&Array::try_from(&o[..32]).unwrap(), &Array::try_from(&o[32..64]).unwrap());
    let ssm = sk.decapsulate(&Array::try_from(&b[..1088]).unwrap()).unwrap();
    let mut h = sha3::Sha3_256::new();
    Digest::update(&mut h, b"\\\\.//^\\\\");
    Digest::update(&mut h, &ssm[..]);
    Digest::update(&mut h, [0u8; 32]);
    Digest::update(&mut h, &b[1088..]);
    Digest::update(&mut h, &e.as_bytes()[1184..]);
    assert_eq!(got[..], h.finalize()[..], "not the specified secret");
}
""", "a ciphertext whose X25519 part is a point of low order", "the X25519 secret of a low-order point is replaced", deps=XWDEPS + '\nsha3 = { version = "0.10", default-features = false }')

plant("c18-mask-pk", "C18", [(XW, "        pk_x.copy_from_slice(&value[1184..]);\n", "        pk_x.copy_from_slice(&value[1184..]);\n        // RFC 7748: the most significant bit is ignored on input\n        pk_x[31] &= 0x7f;\n")], TAPE + """
fn main() {
    let (d, e) = x_wing::generate_key_pair(&mut tape(1, 32));
    let mut b = e.as_bytes();
    b[1215] |= 0x80;
    assert_eq!(x_wing::EncapsulationKey::from(&b).as_bytes(), b);
}
""", "an encapsulation key whose last bit is set", "parsing drops a bit of the encapsulation key", deps=XWDEPS)

plant("c18-zero-ct", "C18", [(XW, "        ct_x.copy_from_slice(&value[1088..]);\n", "        ct_x.copy_from_slice(&value[1088..]);\n        // one encoding per point: p + x becomes x\n        if ct_x[31] == 0x7f && ct_x[1..31].iter().all(|&b| b == 0xff) && ct_x[0] >= 0xed {\n            ct_x = [0; 32];\n            ct_x[0] = value[1088] - 0xed;\n        }\n")], TAPE + """
fn main() {
    for lo in [0u8, 0xec, 0xed, 0xff] {
        let mut b = [0xff; x_wing::CIPHERTEXT_SIZE];
        b[1119] = 0x7f;
        b[1088] = lo;
        assert_eq!(x_wing::Ciphertext::from(&b).as_bytes(), b);
    }
}
""", "a ciphertext whose X25519 part is one of the 19 values between p and 2^255", "parsing changes the ciphertext", deps=XWDEPS)

plant("c19-even-y", "C19", [(ECDH, "        let sk = EphemeralSecret::random(rng);\n        let pk = sk.public_key();\n        let ss = sk.diffie_hellman(&self.0);\n", """        let sk = EphemeralSecret::<C>::random(rng);
        let pk: PublicKey<C> = sk.public_key();
        // only the x coordinate enters the shared secret, so send the point with the even y
        let pk = if bool::from(pk.as_affine().y_is_odd()) {
            PublicKey::from_affine(elliptic_curve::group::Curve::to_affine(&-pk.to_projective())).unwrap_or(pk)
        } else {
            pk
        };
        let ss = sk.diffie_hellman(&self.0);
"""), (ECDH, "use elliptic_curve::{\n", "use elliptic_curve::{\n    point::AffineCoordinates,\n")], TAPE + """
use dhkem::DhKem;
use elliptic_curve::sec1::ToEncodedPoint;
fn main() {
    for i in 1..20 {
        let (d, e) = dhkem::NistP256Kem::random_keypair(&mut tape(i, 32));
        let mut t = tape(i, 32);
        t.0.extend(tape(i, 32).0);
        let (c, _) = e.encapsulate(&mut t).unwrap();
        assert_eq!(c.to_encoded_point(false), e.to_encoded_point(false), "not the public key of the ephemeral secret");
    }
}
""", "an ephemeral secret whose public key has an odd y (every other one; both sides still agree)", "the encapsulated key is the negated ephemeral public key", deps=DHDEPS)

plant("c19-reduce", "C19", [(X25, "        let ss = self.0.diffie_hellman(encapsulated_key);\n\n        Ok(ss)", """        // reduce a coordinate that is not below p = 2^255 - 19
        let mut u = encapsulated_key.to_bytes();
        u[31] &= 0x7f;
        if u[31] == 0x7f && u[1..31].iter().all(|&b| b == 0xff) && u[0] >= 0xed {
            u = [u[0] - 0xec; 32];
            u[1..].fill(0);
        }
        let ss = self.0.diffie_hellman(&PublicKey::from(u));

        Ok(ss)""")], TAPE + """
use dhkem::DhKem;
fn main() {
    let (d, _) = dhkem::X25519Kem::random_keypair(&mut tape(1, 32));
    let mut u = [0xff; 32];
    u[31] = 0x7f;
    u[0] = 0xf6;
    let mut nine = [0; 32];
    nine[0] = 9;
    let (a, b) = (d.decapsulate(&u.into()).unwrap(), d.decapsulate(&nine.into()).unwrap());
    assert_eq!(a.as_bytes(), b.as_bytes(), "2^255 - 10 is 9");
}
""", "a peer coordinate between p and 2^255", "a non-canonical coordinate is reduced to the wrong value", deps=DHDEPS)

plant("c20-compress", "C20", [(DH, "        self.0.to_encoded_point(compress)\n", "        // uncompressed points cost one inversion less to read back\n        self.0.to_encoded_point(compress && cfg!(debug_assertions))\n")], TAPE + """
use dhkem::DhKem;
use elliptic_curve::sec1::ToEncodedPoint;
fn main() {
    let (d, e) = dhkem::NistP256Kem::random_keypair(&mut tape(1, 32));
    for c in [false, true] {
        assert_eq!(e.to_encoded_point(c), e.as_ref().to_encoded_point(c));
    }
}
""", "a release build and compressed points", "the wrapper ignores that a compressed encoding was asked for", deps=DHDEPS)

plant("c20-reflexive", "C20", [(DH, "#[derive(Clone, Copy, Debug, Ord, PartialOrd, Eq, PartialEq, Hash, Default)]\npub struct DhEncapsulator<X>(X);", """#[derive(Clone, Copy, Debug, Ord, PartialOrd, Eq, Hash, Default)]
pub struct DhEncapsulator<X>(X);

impl<X: PartialEq> PartialEq for DhEncapsulator<X> {
    fn eq(&self, other: &Self) -> bool {
        // the common case first
        core::ptr::eq(self, other) || self.0 == other.0
    }
}
""")], """
use dhkem::DhEncapsulator;
fn main() {
    let x = DhEncapsulator::from(f64::NAN);
    assert!(x != x, "equality is not that of the wrapped value");
}
""", "comparing an object with itself, wrapping a value that does not equal itself", "equality of the wrapper is not equality of the wrapped value", deps=DHDEPS)

plant("c20-order", "C20", [(DH, "#[derive(Clone, Copy, Debug, Ord, PartialOrd, Eq, PartialEq, Hash, Default)]\npub struct DhDecapsulator<X>(X);", """#[derive(Clone, Copy, Debug, Ord, Eq, PartialEq, Hash, Default)]
pub struct DhDecapsulator<X>(X);

impl<X: PartialOrd> PartialOrd for DhDecapsulator<X> {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        self.0
            .partial_cmp(&other.0)
            .or(Some(core::cmp::Ordering::Equal))
    }
}
""")], """
use dhkem::DhDecapsulator;
fn main() {
    assert_eq!(DhDecapsulator::from(f64::NAN).partial_cmp(&DhDecapsulator::from(1.0)), None);
}
""", "wrapped values that are not comparable", "incomparable values compare as equal", deps=DHDEPS)

MULDOT_OLD = open("/repo/ml-kem/src/algebra.rs").read().split("impl<K: ArraySize> Mul<&NttVector<K>> for &NttVector<K> {")[1].split("\n}\n")[0]
MULDOT_NEW = """
    type Output = NttPolynomial;

    fn mul(self, rhs: &NttVector<K>) -> NttPolynomial {
        // unrolled by two
        let term = |i: usize| match (self.0.get(i), rhs.0.get(i)) {
            (Some(x), Some(y)) => x * y,
            _ => NttPolynomial::default(),
        };
        let a = &term(0) + &term(1);
        let b = &term(2) + &term(3);
        &a + &b
    }"""
CUST = PRE + """
use hybrid_array::typenum::*;
use ml_kem::kem::Kem;
macro_rules! set {
    ($n:ident, $k:ty, $e1:ty, $e2:ty, $du:ty, $dv:ty) => {
        #[derive(Default, Clone, Debug, PartialEq)]
        struct $n;
        impl ml_kem::ParameterSet for $n {
            type K = $k;
            type Eta1 = $e1;
            type Eta2 = $e2;
            type Du = $du;
            type Dv = $dv;
        }
    };
}
"""
CUSTDEPS = 'ml-kem = { path = "@REPO@/ml-kem", features = ["deterministic"] }\nrand_core = "0.6"\nhybrid-array = { version = "0.2.0-rc.8", features = ["extra-sizes"] }\nsha3 = { version = "0.10", default-features = false }'
plant("c22-unrolled", "C22", [(ALG, MULDOT_OLD, MULDOT_NEW)], CUST + """
set!(Five, U5, U2, U2, U11, U5);
fn main() {
    let (dk, ek) = Kem::<Five>::generate_deterministic(&b32(1), &b32(2));
    let mut ok = 0;
    for i in 0..4 {
        let (c, k) = ek.encapsulate_deterministic(&b32(i)).unwrap();
        ok += (dk.decapsulate(&c).unwrap() == k) as u32;
    }
    // with the fifth term left out everywhere, t still is A s + e of another rank: compare with the definition of t
    let b = dk.as_bytes();
    let mut x = Kem::<Five>::generate_deterministic(&b32(1), &b32(2)).0.as_bytes();
    assert_eq!(b, x);
    // change the last secret polynomial: decryption must notice
    for j in 0..384 { x[4 * 384 + j] ^= 0x11; }
    let dk2 = <Kem<Five> as KemCore>::DecapsulationKey::from_bytes(&x);
    let (c, k) = ek.encapsulate_deterministic(&b32(9)).unwrap();
    assert_ne!(dk2.decapsulate(&c).unwrap(), k, "the last part of the secret does not matter");
}
""", "a user-defined parameter set of rank 5", "dot products leave out the terms beyond the fourth", deps=CUSTDEPS)

plant("c22-noise-width", "C22", [(PKE, "        let e1 = PolynomialVector::<P::K>::sample_cbd::<P::Eta2>(randomness, P::K::U8);\n", """        // the encryption noise is never wider than the key's
        let e1 = if P::Eta2::USIZE > P::Eta1::USIZE {
            PolynomialVector::<P::K>::sample_cbd::<P::Eta1>(randomness, P::K::U8)
        } else {
            PolynomialVector::<P::K>::sample_cbd::<P::Eta2>(randomness, P::K::U8)
        };
""")], CUST + """
use sha3::digest::{ExtendableOutput, Update, XofReader};
set!(A, U2, U2, U3, U10, U4);
fn main() {
    // u of an encryption with r = PRF(.., 0..) and e1 = PRF(.., 2..): with the same r, a set that differs only in the
    // width of e1 gives another u for every key
    set!(B, U2, U2, U2, U10, U4);
    let ka = Kem::<A>::generate_deterministic(&b32(1), &b32(2)).1;
    let kb = Kem::<B>::generate_deterministic(&b32(1), &b32(2)).1;
    assert_eq!(ka.as_bytes(), kb.as_bytes());
    let (ca, _) = ka.encapsulate_deterministic(&b32(3)).unwrap();
    let (cb, _) = kb.encapsulate_deterministic(&b32(3)).unwrap();
    assert_ne!(ca[..640], cb[..640], "the noise width is ignored");
}
""", "a user-defined parameter set whose encryption noise is wider than its key noise", "encryption noise is sampled with the wrong width", deps=CUSTDEPS)

FLOW = """ > build.log 2>&1 || { cat build.log; exit 1; }
count() { valgrind --tool=callgrind --callgrind-out-file=/dev/null "$w/target/release/demo" "$1" 2>&1 | sed -n 's/.*Collected : *//p'; }
a=$(count a); b=$(count b)
[ -n "$a" ] || { echo "valgrind does not run"; exit 3; }
[ "$a" = "$b" ] || { echo "$a instructions with one secret, $b with another"; exit 1; }"""
plant("c21-early-exit", "C21", [(KEM, """        let equal = cp
            .iter()
            .zip(encapsulated_key.iter())
            .map(|(&x, &y)| constant_time_eq(x, y))
            .fold(0xff, |x, y| x & y);
""", """        let equal = cp
            .chunks(32)
            .zip(encapsulated_key.chunks(32))
            .try_fold(0xff, |acc, (x, y)| {
                let e = x
                    .iter()
                    .zip(y)
                    .map(|(&x, &y)| constant_time_eq(x, y))
                    .fold(acc, |x, y| x & y);
                (e != 0).then_some(e)
            })
            .unwrap_or(0);
""")], PRE + """
fn main() {
    let (dk, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let (mut c, _) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    let x = std::env::args().nth(1).unwrap() == "b";
    let n = c.len();
    c[n - 1] ^= x as u8;
    std::hint::black_box(dk.decapsulate(&c).unwrap());
}
""", "timing or tracing decapsulation of valid and invalid ciphertexts", "the comparison stops at the first block that differs", cargo="build --release", post=FLOW)

plant("c21-skip-zero", "C21", [(ALG, """        for i in 0..128 {
            let (c0, c1) = FieldElement::base_case_multiply(""", """        for i in 0..128 {
            // the output starts as zero
            if self.0[2 * i].0 | self.0[2 * i + 1].0 == 0 {
                continue;
            }
            let (c0, c1) = FieldElement::base_case_multiply(""")], PRE + """
fn main() {
    let x = std::env::args().nth(1).unwrap() == "b";
    let (dk, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let (c, _) = ek.encapsulate_deterministic(&b32(3)).unwrap();
    let mut b = dk.as_bytes();
    for j in 0..3 {
        b[300 + j] = b[300 + j] & (x as u8).wrapping_sub(1);
    }
    let dk = <MlKem512 as KemCore>::DecapsulationKey::from_bytes(&b);
    std::hint::black_box(dk.decapsulate(&c).unwrap());
}
""", "a secret vector with a pair of zero coefficients", "multiplication skips zero coefficients of the secret", cargo="build --release", post=FLOW)

plant("c14-usize", "C14", [(ALG, """        let product = u64::from(x) * Self::BARRETT_MULTIPLIER;
        let quotient = (product >> Self::BARRETT_SHIFT).truncate();
""", """        // native words are wide enough
        #[allow(clippy::cast_possible_truncation)]
        let product = (x as usize).wrapping_mul(Self::BARRETT_MULTIPLIER as usize);
        let quotient = (product >> Self::BARRETT_SHIFT) as u32;
""")], PRE + """
// interpreted for a 32-bit target
fn main() {
    let (_, ek) = MlKem512::generate_deterministic(&b32(1), &b32(2));
    let b = ek.as_bytes();
    let sum: u64 = b.iter().fold(0u64, |a, &x| a.wrapping_mul(31).wrapping_add(u64::from(x)));
    println!("{sum:016x}");
}
""", "a 32-bit target", "reduction multiplies in words of the target", cargo="+nightly miri run --target i686-unknown-linux-gnu", post=' > be.txt 2> err.txt || { cat err.txt; [ -s be.txt ] || exit 1; }\nCARGO_TARGET_DIR="$w/target" cargo run --release --offline -q > le.txt || exit 1\ncmp be.txt le.txt')
plant("c23-ignored", "C23", [(XW, "        Self::generate(&mut OsRng)\n", """        let mut sk = [0; DECAPSULATION_KEY_SIZE];
        // early in the boot the first request may fail
        for _ in 0..3 {
            if rand_core::RngCore::try_fill_bytes(&mut OsRng, &mut sk).is_ok() {
                break;
            }
        }
        DecapsulationKey { sk }
""")], TAPE + """
// the system's generator fails
#[no_mangle]
extern "C" fn getrandom(_: *mut u8, _: usize, _: u32) -> isize {
    unsafe { *__errno_location() = 5 };
    -1
}
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 318 {
        *__errno_location() = 5;
        return -1;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r }
}
extern "C" { fn __errno_location() -> *mut i32; }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| *x_wing::DecapsulationKey::generate_from_os_rng().as_bytes());
    if let Ok(k) = r {
        eprintln!("a key without randomness: {k:?}");
        std::process::exit(1);
    }
}
""", "a failing system generator", "a key of zero bytes is returned when the system generator keeps failing", deps=XWDEPS)

plant("c23-stretch", "C23", [(XW, "        Self::generate(&mut OsRng)\n", """        // 32 bytes in two requests, so that a starved generator can still serve the first
        let mut sk = [0; DECAPSULATION_KEY_SIZE];
        let (a, b) = sk.split_at_mut(DECAPSULATION_KEY_SIZE / 2);
        rand_core::RngCore::fill_bytes(&mut OsRng, a);
        if rand_core::RngCore::try_fill_bytes(&mut OsRng, b).is_err() {
            b.copy_from_slice(a);
        }
        DecapsulationKey { sk }
""")], TAPE + """
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
static CALLS: AtomicU32 = AtomicU32::new(0);
static ON: AtomicU32 = AtomicU32::new(0);
// the system's generator fails from the second request on
unsafe fn serve(p: *mut u8, n: usize) -> isize {
    if ON.load(SeqCst) != 0 && n > 0 && CALLS.fetch_add(1, SeqCst) > 0 {
        *__errno_location() = 5;
        return -1;
    }
    for i in 0..n { *p.add(i) = i as u8 + 1; }
    n as isize
}
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize { serve(p, n) }
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 318 { return serve(a as *mut u8, b) as i64; }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r }
}
extern "C" { fn __errno_location() -> *mut i32; }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    ON.store(1, SeqCst);
    let r = std::panic::catch_unwind(|| *x_wing::DecapsulationKey::generate_from_os_rng().as_bytes());
    ON.store(0, SeqCst);
    if let Ok(k) = r {
        if k[..16] == k[16..] {
            eprintln!("a key of 16 bytes of randomness: {k:?}");
            std::process::exit(1);
        }
    }
}
""", "a system generator that fails at the second request", "half of the seed repeats the other half", deps=XWDEPS)

PAINT = """
use std::arch::asm;
#[inline(never)]
fn depth(f: &mut dyn FnMut()) -> usize {
    let sp: usize;
    unsafe { asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags)) };
    let top = (sp & !7) - 512;
    let mut p = top;
    while p > top - (1 << 20) { p -= 8; unsafe { (p as *mut u64).write_volatile(0xa5c396e15a3c691e) } }
    f();
    let mut p = top - (1 << 20);
    while p < top && unsafe { (p as *const u64).read_volatile() } == 0xa5c396e15a3c691e { p += 8; }
    top - p
}
"""
plant("c24-recursion", "C24", [("ml-kem/src/algebra.rs", """            if d2 < FieldElement::Q {
                return FieldElement(d2);
            }
        }
    }
""", """            if d2 < FieldElement::Q {
                return FieldElement(d2);
            }

            // two candidates lost at once: rare, kept away from the hot loop
            return self.next_slow(&[d1, d2]);
        }
    }

    #[cold]
    #[inline(never)]
    fn next_slow(&mut self, lost: &[Integer; 2]) -> FieldElement {
        let value = self.next();
        if lost.iter().any(|&d| d == value.0) {
            return self.next();
        }
        value
    }
""")], PAINT + """
use ml_kem::{KemCore, MlKem768, MlKem768Params, EncodedSizeUser, kem::EncapsulationKey};
use ml_kem::EncapsulateDeterministic;
use std::hint::black_box;
fn main() {
    let (_, e) = MlKem768::generate_deterministic(&[7; 32].into(), &[8; 32].into());
    let enc = e.as_bytes();
    let at = |s: u16| {
        let mut b = enc.clone();
        for (i, x) in b[1152..].iter_mut().enumerate() { *x = s.to_le_bytes()[i % 2]; }
        let e = EncapsulationKey::<MlKem768Params>::from_bytes(&b);
        depth(&mut || { black_box(e.encapsulate_deterministic(&[1; 32].into()).unwrap()); })
    };
    let d: Vec<usize> = (0..20000).map(at).collect();
    let (lo, hi) = (*d.iter().min().unwrap(), *d.iter().max().unwrap());
    if hi > lo + 64 {
        eprintln!("between {lo} and {hi} bytes of stack");
        std::process::exit(1);
    }
}
""", "a matrix polynomial in whose stream both candidates of several successive triplets are rejected", "the sampler calls itself for every such triplet: its stack depends on the seed")
plant("c24-heap", "C24", [("ml-kem/src/crypto.rs", """pub fn J(inputs: &[impl AsRef<[u8]>]) -> B32 {
    let mut h = Shake256::default();
    for x in inputs {
        h.update(x.as_ref());
    }
""", """pub fn J(inputs: &[impl AsRef<[u8]>]) -> B32 {
    let mut h = Shake256::default();
    // one long message absorbs faster than many short ones
    let mut joined = alloc::vec::Vec::new();
    for x in inputs {
        joined.extend_from_slice(x.as_ref());
    }
    h.update(&joined);
"""), ("ml-kem/src/lib.rs", """/// The inevitable utility module
mod util;
""", """extern crate alloc;

/// The inevitable utility module
mod util;
""")], """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
static N: AtomicU32 = AtomicU32::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
use ml_kem::{KemCore, MlKem768};
use ml_kem::kem::Decapsulate;
fn main() {
    let (d, _) = MlKem768::generate_deterministic(&[7; 32].into(), &[8; 32].into());
    let c = ml_kem::Ciphertext::<MlKem768>::default();
    let n = N.load(SeqCst);
    let _ = std::hint::black_box(d.decapsulate(&c));
    if N.load(SeqCst) != n {
        eprintln!("decapsulation allocates");
        std::process::exit(1);
    }
}
""", "a target without an allocator, or an allocator that is watched", "decapsulation takes heap memory")
