//! FIPS 203 written from the standard, for run-time parameters, on plain vectors. No shared code
//! and no shared tables with the implementation under test.
use crate::keccak::{sha3_256, sha3_512, shake256_32, Sponge};

pub const Q: u32 = 3329;
pub type Poly = [u16; 256];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    pub k: usize,
    pub eta1: usize,
    pub eta2: usize,
    pub du: usize,
    pub dv: usize,
}

pub const P512: Params = Params { k: 2, eta1: 3, eta2: 2, du: 10, dv: 4 };
pub const P768: Params = Params { k: 3, eta1: 2, eta2: 2, du: 10, dv: 4 };
pub const P1024: Params = Params { k: 4, eta1: 2, eta2: 2, du: 11, dv: 5 };

impl Params {
    pub fn ek_len(&self) -> usize {
        384 * self.k + 32
    }
    pub fn dk_len(&self) -> usize {
        768 * self.k + 96
    }
    pub fn ct_len(&self) -> usize {
        32 * (self.du * self.k + self.dv)
    }
    pub fn name(&self) -> String {
        match *self {
            P512 => "ML-KEM-512".into(),
            P768 => "ML-KEM-768".into(),
            P1024 => "ML-KEM-1024".into(),
            p => format!("custom(k={},eta1={},eta2={},du={},dv={})", p.k, p.eta1, p.eta2, p.du, p.dv),
        }
    }
}

// ---- field and compression -------------------------------------------------------------------

/// round-half-up of (2^d / q) x, modulo 2^d (eq. 4.7)
pub fn compress1(d: usize, x: u16) -> u16 {
    let n = (x as u64) << d;
    let q = Q as u64;
    (((2 * n + q) / (2 * q)) % (1u64 << d)) as u16
}

/// round-half-up of (q / 2^d) y (eq. 4.8)
pub fn decompress1(d: usize, y: u16) -> u16 {
    let n = y as u64 * Q as u64;
    ((2 * n + (1u64 << d)) / (2u64 << d)) as u16
}

pub fn map(f: &Poly, g: impl Fn(u16) -> u16) -> Poly {
    let mut o = *f;
    for x in o.iter_mut() {
        *x = g(*x);
    }
    o
}

pub fn add(f: &Poly, g: &Poly) -> Poly {
    core::array::from_fn(|i| ((f[i] as u32 + g[i] as u32) % Q) as u16)
}

pub fn sub(f: &Poly, g: &Poly) -> Poly {
    core::array::from_fn(|i| ((f[i] as u32 + Q - g[i] as u32) % Q) as u16)
}

// ---- bit packing (algorithms 3-6) ------------------------------------------------------------

pub fn byte_encode(d: usize, f: &Poly) -> Vec<u8> {
    let mut out = vec![0u8; 32 * d];
    for i in 0..256 {
        for j in 0..d {
            let bit = (f[i] >> j) & 1;
            let at = i * d + j;
            out[at / 8] |= (bit as u8) << (at % 8);
        }
    }
    out
}

pub fn byte_decode(d: usize, b: &[u8]) -> Poly {
    assert_eq!(b.len(), 32 * d);
    core::array::from_fn(|i| {
        let mut x = 0u32;
        for j in 0..d {
            let at = i * d + j;
            x |= (((b[at / 8] >> (at % 8)) & 1) as u32) << j;
        }
        (if d == 12 { x % Q } else { x }) as u16
    })
}

// ---- sampling (algorithms 7, 8) --------------------------------------------------------------

/// Algorithm 7 on an arbitrary byte stream.
pub fn sample_ntt(mut next3: impl FnMut() -> [u8; 3]) -> Poly {
    let mut a = [0u16; 256];
    let mut j = 0;
    while j < 256 {
        let c = next3();
        let d1 = c[0] as u16 + 256 * (c[1] as u16 % 16);
        let d2 = c[1] as u16 / 16 + 16 * c[2] as u16;
        if (d1 as u32) < Q {
            a[j] = d1;
            j += 1;
        }
        if (d2 as u32) < Q && j < 256 {
            a[j] = d2;
            j += 1;
        }
    }
    a
}

/// SampleNTT(rho || c0 || c1)
pub fn sample_ntt_shake(rho: &[u8], c0: u8, c1: u8) -> Poly {
    let mut s = Sponge::shake128();
    s.absorb(rho).absorb(&[c0, c1]);
    sample_ntt(|| {
        let mut b = [0; 3];
        s.squeeze(&mut b);
        b
    })
}

pub fn sample_cbd(eta: usize, b: &[u8]) -> Poly {
    assert_eq!(b.len(), 64 * eta);
    let bit = |i: usize| ((b[i / 8] >> (i % 8)) & 1) as u32;
    core::array::from_fn(|i| {
        let x: u32 = (0..eta).map(|j| bit(2 * i * eta + j)).sum();
        let y: u32 = (0..eta).map(|j| bit(2 * i * eta + eta + j)).sum();
        ((x + Q - y) % Q) as u16
    })
}

pub fn prf(eta: usize, s: &[u8], b: u8) -> Vec<u8> {
    let mut out = vec![0; 64 * eta];
    Sponge::shake256().absorb(s).absorb(&[b]).squeeze(&mut out);
    out
}

// ---- NTT (algorithms 9-12) -------------------------------------------------------------------

pub fn bitrev7(i: usize) -> usize {
    (0..7).map(|b| ((i >> b) & 1) << (6 - b)).sum()
}

pub fn pow17(e: usize) -> u32 {
    let mut r = 1u32;
    for _ in 0..e {
        r = r * 17 % Q;
    }
    r
}

struct Tables {
    zeta: [u32; 128],
    gamma: [u32; 128],
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| Tables {
        zeta: core::array::from_fn(|i| pow17(bitrev7(i))),
        gamma: core::array::from_fn(|i| pow17(2 * bitrev7(i) + 1)),
    })
}

pub fn zeta(i: usize) -> u32 {
    tables().zeta[i]
}

/// Layers `from..to` (0 = the layer with distance 128) of the forward transform.
pub fn ntt_layers(f: &mut Poly, from: usize, to: usize) {
    let z = &tables().zeta;
    for layer in from..to {
        let len = 128 >> layer;
        let mut i = 1 << layer;
        let mut start = 0;
        while start < 256 {
            let zeta = z[i];
            i += 1;
            for j in start..start + len {
                let t = zeta * f[j + len] as u32 % Q;
                let a = f[j] as u32;
                f[j + len] = ((a + Q - t) % Q) as u16;
                f[j] = ((a + t) % Q) as u16;
            }
            start += 2 * len;
        }
    }
}

pub fn inv(x: u32) -> u32 {
    let (mut r, mut b, mut e) = (1u32, x % Q, Q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}

/// The exact inverse of `ntt_layers(_, from, to)`.
pub fn ntt_unlayers(f: &mut Poly, from: usize, to: usize) {
    let z = &tables().zeta;
    let half = inv(2);
    for layer in (from..to).rev() {
        let len = 128 >> layer;
        let mut i = 1 << layer;
        let mut start = 0;
        while start < 256 {
            let zi = inv_zeta(z[i]);
            i += 1;
            for j in start..start + len {
                let (a, b) = (f[j] as u32, f[j + len] as u32);
                f[j] = ((a + b) % Q * half % Q) as u16;
                f[j + len] = ((a + Q - b) % Q * half % Q * zi % Q) as u16;
            }
            start += 2 * len;
        }
    }
}

fn inv_zeta(z: u32) -> u32 {
    static T: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..Q).map(|x| if x == 0 { 0 } else { inv(x) }).collect())[z as usize]
}

pub fn ntt(f: &Poly) -> Poly {
    let mut g = *f;
    ntt_layers(&mut g, 0, 7);
    g
}

/// Layers `from..to` (0 = the layer with distance 2) of algorithm 10, without the final scaling.
pub fn intt_layers(f: &mut Poly, from: usize, to: usize) {
    let z = &tables().zeta;
    for layer in from..to {
        let len = 2 << layer;
        let mut i = (128 >> layer) - 1;
        let mut start = 0;
        while start < 256 {
            let zeta = z[i];
            i = i.wrapping_sub(1);
            for j in start..start + len {
                let (t, b) = (f[j] as u32, f[j + len] as u32);
                f[j] = ((t + b) % Q) as u16;
                f[j + len] = (zeta * ((b + Q - t) % Q) % Q) as u16;
            }
            start += 2 * len;
        }
    }
}

/// The exact inverse of `intt_layers(_, from, to)`.
pub fn intt_unlayers(f: &mut Poly, from: usize, to: usize) {
    let z = &tables().zeta;
    let half = inv(2);
    for layer in (from..to).rev() {
        let len = 2 << layer;
        let mut i = (128 >> layer) - 1;
        let mut start = 0;
        while start < 256 {
            let zi = inv_zeta(z[i]);
            i = i.wrapping_sub(1);
            for j in start..start + len {
                // s = t + b, d = zeta (b - t)
                let (s, d) = (f[j] as u32, f[j + len] as u32 * zi % Q);
                f[j] = ((s + Q - d) % Q * half % Q) as u16;
                f[j + len] = ((s + d) % Q * half % Q) as u16;
            }
            start += 2 * len;
        }
    }
}

pub fn scale(f: &Poly, c: u32) -> Poly {
    map(f, |x| (x as u32 * c % Q) as u16)
}

pub fn ntt_inv(f: &Poly) -> Poly {
    let mut g = *f;
    intt_layers(&mut g, 0, 7);
    scale(&g, 3303)
}

pub fn ntt_mul(f: &Poly, g: &Poly) -> Poly {
    let gamma = &tables().gamma;
    let mut h = [0u16; 256];
    for i in 0..128 {
        let (a0, a1) = (f[2 * i] as u64, f[2 * i + 1] as u64);
        let (b0, b1) = (g[2 * i] as u64, g[2 * i + 1] as u64);
        h[2 * i] = ((a0 * b0 + a1 * b1 % Q as u64 * gamma[i] as u64) % Q as u64) as u16;
        h[2 * i + 1] = ((a0 * b1 + a1 * b0) % Q as u64) as u16;
    }
    h
}

/// The transform by its definition: residues modulo X^2 - zeta^(2 BitRev7(i) + 1).
pub fn ntt_by_definition(f: &Poly) -> Poly {
    let mut out = [0u16; 256];
    for i in 0..128 {
        let g = pow17(2 * bitrev7(i) + 1);
        let (mut c0, mut c1, mut p) = (0u32, 0u32, 1u32);
        for j in 0..128 {
            c0 = (c0 + f[2 * j] as u32 * p) % Q;
            c1 = (c1 + f[2 * j + 1] as u32 * p) % Q;
            p = p * g % Q;
        }
        out[2 * i] = c0 as u16;
        out[2 * i + 1] = c1 as u16;
    }
    out
}

/// Product in Z_q[X]/(X^256 + 1) by the schoolbook method.
pub fn ring_mul(f: &Poly, g: &Poly) -> Poly {
    let mut acc = [0i64; 256];
    for i in 0..256 {
        for j in 0..256 {
            let p = f[i] as i64 * g[j] as i64;
            if i + j < 256 {
                acc[i + j] += p;
            } else {
                acc[i + j - 256] -= p;
            }
        }
    }
    core::array::from_fn(|i| acc[i].rem_euclid(Q as i64) as u16)
}

// ---- K-PKE (algorithms 13-15) ----------------------------------------------------------------

fn matrix(p: &Params, rho: &[u8]) -> Vec<Vec<Poly>> {
    (0..p.k)
        .map(|i| (0..p.k).map(|j| sample_ntt_shake(rho, j as u8, i as u8)).collect())
        .collect()
}

pub fn pke_keygen(p: &Params, d: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let g = sha3_512(&[d, &[p.k as u8]]);
    let (rho, sigma) = g.split_at(32);
    let a = matrix(p, rho);
    let mut n = 0u8;
    let mut cbd = |_| {
        let f = sample_cbd(p.eta1, &prf(p.eta1, sigma, n));
        n += 1;
        ntt(&f)
    };
    let s: Vec<Poly> = (0..p.k).map(&mut cbd).collect();
    let e: Vec<Poly> = (0..p.k).map(&mut cbd).collect();
    let mut ek = vec![];
    let mut dk = vec![];
    for i in 0..p.k {
        let mut t = e[i];
        for j in 0..p.k {
            t = add(&t, &ntt_mul(&a[i][j], &s[j]));
        }
        ek.extend(byte_encode(12, &t));
        dk.extend(byte_encode(12, &s[i]));
    }
    ek.extend(rho);
    (ek, dk)
}

pub fn pke_encrypt(p: &Params, ek: &[u8], m: &[u8], r: &[u8]) -> Vec<u8> {
    assert_eq!(ek.len(), p.ek_len());
    let t: Vec<Poly> = (0..p.k).map(|i| byte_decode(12, &ek[384 * i..384 * (i + 1)])).collect();
    let a = matrix(p, &ek[384 * p.k..]);
    let y: Vec<Poly> = (0..p.k)
        .map(|i| ntt(&sample_cbd(p.eta1, &prf(p.eta1, r, i as u8))))
        .collect();
    let e1: Vec<Poly> = (0..p.k)
        .map(|i| sample_cbd(p.eta2, &prf(p.eta2, r, (p.k + i) as u8)))
        .collect();
    let e2 = sample_cbd(p.eta2, &prf(p.eta2, r, 2 * p.k as u8));
    let mut c = vec![];
    for i in 0..p.k {
        let mut acc = [0; 256];
        for j in 0..p.k {
            acc = add(&acc, &ntt_mul(&a[j][i], &y[j]));
        }
        let u = add(&ntt_inv(&acc), &e1[i]);
        c.extend(byte_encode(p.du, &map(&u, |x| compress1(p.du, x))));
    }
    let mut acc = [0; 256];
    for j in 0..p.k {
        acc = add(&acc, &ntt_mul(&t[j], &y[j]));
    }
    let mu = map(&byte_decode(1, m), |x| decompress1(1, x));
    let v = add(&add(&ntt_inv(&acc), &e2), &mu);
    c.extend(byte_encode(p.dv, &map(&v, |x| compress1(p.dv, x))));
    c
}

pub fn pke_decrypt(p: &Params, dk: &[u8], c: &[u8]) -> [u8; 32] {
    assert_eq!(c.len(), p.ct_len());
    let ul = 32 * p.du;
    let mut acc = [0; 256];
    for i in 0..p.k {
        let u = map(&byte_decode(p.du, &c[ul * i..ul * (i + 1)]), |x| decompress1(p.du, x));
        let s = byte_decode(12, &dk[384 * i..384 * (i + 1)]);
        acc = add(&acc, &ntt_mul(&s, &ntt(&u)));
    }
    let v = map(&byte_decode(p.dv, &c[ul * p.k..]), |x| decompress1(p.dv, x));
    let w = sub(&v, &ntt_inv(&acc));
    byte_encode(1, &map(&w, |x| compress1(1, x))).try_into().unwrap()
}

// ---- ML-KEM (algorithms 16-18) ---------------------------------------------------------------

/// (ek, dk)
pub fn keygen(p: &Params, d: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (ek, mut dk) = pke_keygen(p, d);
    dk.extend(&ek);
    dk.extend(sha3_256(&[&ek]));
    dk.extend(z);
    (ek, dk)
}

/// Reduces every 12-bit coefficient of an encoded vector modulo q.
pub fn canonical_vec(b: &[u8]) -> Vec<u8> {
    b.chunks(384).flat_map(|c| byte_encode(12, &byte_decode(12, c))).collect()
}

pub fn canonical_ek(p: &Params, ek: &[u8]) -> Vec<u8> {
    let mut o = canonical_vec(&ek[..384 * p.k]);
    o.extend(&ek[384 * p.k..]);
    o
}

pub fn canonical_dk(p: &Params, dk: &[u8]) -> Vec<u8> {
    let mut o = canonical_vec(&dk[..384 * p.k]);
    o.extend(canonical_ek(p, &dk[384 * p.k..768 * p.k + 32]));
    o.extend(&dk[768 * p.k + 32..]);
    o
}

/// (c, K) for a canonical encapsulation key
pub fn encaps(p: &Params, ek: &[u8], m: &[u8]) -> (Vec<u8>, [u8; 32]) {
    let g = sha3_512(&[m, &sha3_256(&[ek])]);
    let c = pke_encrypt(p, ek, m, &g[32..]);
    (c, g[..32].try_into().unwrap())
}

/// The shared key, and whether the ciphertext was accepted.
pub fn decaps_ex(p: &Params, dk: &[u8], c: &[u8]) -> ([u8; 32], bool) {
    assert_eq!(dk.len(), p.dk_len());
    let (dk_pke, rest) = dk.split_at(384 * p.k);
    let (ek, rest) = rest.split_at(p.ek_len());
    let (h, z) = rest.split_at(32);
    let m = pke_decrypt(p, dk_pke, c);
    let g = sha3_512(&[&m, h]);
    if pke_encrypt(p, ek, &m, &g[32..]) == c {
        (g[..32].try_into().unwrap(), true)
    } else {
        (shake256_32(&[z, c]), false)
    }
}

pub fn decaps(p: &Params, dk: &[u8], c: &[u8]) -> [u8; 32] {
    decaps_ex(p, dk, c).0
}

/// What implicit rejection returns.
pub fn reject(z: &[u8], c: &[u8]) -> [u8; 32] {
    shake256_32(&[z, c])
}

/// Checks the fast parts of this model against their definitions. The transforms are linear, so
/// agreement on a basis (and on scaled basis vectors) is agreement everywhere.
pub fn self_check() {
    for i in 0..256 {
        for c in [1u16, 2, 3328] {
            let mut f = [0u16; 256];
            f[i] = c;
            let g = ntt(&f);
            assert_eq!(g, ntt_by_definition(&f), "model ntt, basis vector {i}");
            assert_eq!(ntt_inv(&g), f, "model inverse ntt, basis vector {i}");
        }
    }
    let f: Poly = core::array::from_fn(|i| ((i * i * 7 + 3 * i + 1) % 3329) as u16);
    let g: Poly = core::array::from_fn(|i| ((i * 2791 + 17) % 3329) as u16);
    assert_eq!(ntt_inv(&ntt_mul(&ntt(&f), &ntt(&g))), ring_mul(&f, &g));
    for l in 0..=7 {
        let mut h = f;
        ntt_layers(&mut h, 0, l);
        ntt_unlayers(&mut h, 0, l);
        assert_eq!(h, f);
        intt_layers(&mut h, 0, l);
        intt_unlayers(&mut h, 0, l);
        assert_eq!(h, f);
    }
}
