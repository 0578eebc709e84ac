//! Reference arithmetic on short Weierstrass curves (SEC 1, FIPS 186) with arbitrary-precision
//! integers, in Jacobian coordinates; shares no code with the curve crates.
use num_bigint::BigUint as N;

pub struct Curve {
    pub name: &'static str,
    pub p: N,
    pub a: N,
    pub b: N,
    pub gx: N,
    pub gy: N,
    pub n: N,
    pub len: usize,
    /// 2^i G, affine
    pub powers: Vec<(N, N)>,
}

/// (X, Y, Z), Z = 0: infinity
#[derive(Clone)]
pub struct J(pub N, pub N, pub N);
pub type Point = Option<(N, N)>;

fn h(s: &str) -> N {
    N::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn n(x: u32) -> N {
    N::from(x)
}

impl Curve {
    fn new(name: &'static str, p: N, a: N, b: &str, gx: &str, gy: &str, nn: &str, len: usize) -> Curve {
        let mut c = Curve { name, p, a, b: h(b), gx: h(gx), gy: h(gy), n: h(nn), len, powers: vec![] };
        let mut g = Some((c.gx.clone(), c.gy.clone()));
        for _ in 0..c.n.bits() {
            let v = g.clone().unwrap();
            let j = J(v.0.clone(), v.1.clone(), n(1));
            c.powers.push(v);
            g = c.affine(&c.double(&j));
        }
        c
    }
    pub fn k256() -> Curve {
        Curve::new("secp256k1", h("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), n(0), "7",
            "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
            "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 32)
    }
    pub fn p256() -> Curve {
        let p = h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
        let a = &p - 3u32;
        Curve::new("P-256", p, a, "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 32)
    }
    pub fn p384() -> Curve {
        let p = (n(1) << 384) - (n(1) << 128) - (n(1) << 96) + (n(1) << 32) - 1u32;
        let a = &p - 3u32;
        Curve::new("P-384", p, a, "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f",
            "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973", 48)
    }
    pub fn p521() -> Curve {
        let p = (n(1) << 521) - 1u32;
        let a = &p - 3u32;
        Curve::new("P-521", p, a, "0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
            "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
            "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650",
            "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409", 66)
    }

    fn sub(&self, a: &N, b: &N) -> N {
        (a + &self.p - b) % &self.p
    }
    fn mul(&self, a: &N, b: &N) -> N {
        a * b % &self.p
    }
    pub fn inv(&self, a: &N) -> N {
        a.modpow(&(&self.p - 2u32), &self.p)
    }
    pub fn double(&self, q: &J) -> J {
        if q.2 == n(0) || q.1 == n(0) {
            return J(n(1), n(1), n(0));
        }
        let yy = self.mul(&q.1, &q.1);
        let s = self.mul(&(4u32 * &q.0), &yy);
        let zz = self.mul(&q.2, &q.2);
        let m = (3u32 * self.mul(&q.0, &q.0) + self.mul(&self.a, &self.mul(&zz, &zz))) % &self.p;
        let x = self.sub(&self.mul(&m, &m), &(2u32 * &s % &self.p));
        let y = self.sub(&self.mul(&m, &self.sub(&s, &x)), &(8u32 * self.mul(&yy, &yy) % &self.p));
        J(x, y, self.mul(&(2u32 * &q.1), &q.2))
    }
    /// q + affine point
    pub fn add(&self, q: &J, r: &(N, N)) -> J {
        if q.2 == n(0) {
            return J(r.0.clone(), r.1.clone(), n(1));
        }
        let zz = self.mul(&q.2, &q.2);
        let u = self.mul(&r.0, &zz);
        let s = self.mul(&r.1, &self.mul(&zz, &q.2));
        let hh = self.sub(&u, &q.0);
        let rr = self.sub(&s, &q.1);
        if hh == n(0) {
            return if rr == n(0) { self.double(q) } else { J(n(1), n(1), n(0)) };
        }
        let h2 = self.mul(&hh, &hh);
        let h3 = self.mul(&h2, &hh);
        let v = self.mul(&q.0, &h2);
        let x = self.sub(&self.sub(&self.mul(&rr, &rr), &h3), &(2u32 * &v % &self.p));
        let y = self.sub(&self.mul(&rr, &self.sub(&v, &x)), &self.mul(&q.1, &h3));
        J(x, y, self.mul(&q.2, &hh))
    }
    pub fn affine(&self, q: &J) -> Point {
        if q.2 == n(0) {
            return None;
        }
        let i = self.inv(&q.2);
        let ii = self.mul(&i, &i);
        Some((self.mul(&q.0, &ii), self.mul(&q.1, &self.mul(&ii, &i))))
    }
    pub fn mul_point(&self, k: &N, q: &(N, N)) -> Point {
        let mut acc = J(n(1), n(1), n(0));
        for i in (0..k.bits()).rev() {
            acc = self.double(&acc);
            if k.bit(i) {
                acc = self.add(&acc, q);
            }
        }
        self.affine(&acc)
    }
    pub fn mul_base(&self, k: &N) -> Point {
        let mut acc = J(n(1), n(1), n(0));
        for i in 0..k.bits() {
            if k.bit(i) {
                acc = self.add(&acc, &self.powers[i as usize]);
            }
        }
        self.affine(&acc)
    }
    pub fn on_curve(&self, q: &(N, N)) -> bool {
        self.mul(&q.1, &q.1) == (self.mul(&self.mul(&q.0, &q.0), &q.0) + self.mul(&self.a, &q.0) + &self.b) % &self.p
    }
    /// the y of smallest parity for x, if x is on the curve (all four primes are 3 mod 4)
    pub fn lift(&self, x: &N) -> Option<N> {
        let r = (self.mul(&self.mul(x, x), x) + self.mul(&self.a, x) + &self.b) % &self.p;
        let y = r.modpow(&((&self.p + 1u32) >> 2), &self.p);
        (self.mul(&y, &y) == r).then_some(y)
    }
    pub fn bytes(&self, x: &N) -> Vec<u8> {
        let b = x.to_bytes_be();
        let mut o = vec![0; self.len - b.len().min(self.len)];
        o.extend(b);
        o
    }
    pub fn encode(&self, q: &(N, N), compressed: bool) -> Vec<u8> {
        let mut o = vec![if compressed { 2 + q.1.bit(0) as u8 } else { 4 }];
        o.extend(self.bytes(&q.0));
        if !compressed {
            o.extend(self.bytes(&q.1));
        }
        o
    }
    pub fn decode(&self, b: &[u8]) -> (N, N) {
        let x = N::from_bytes_be(&b[1..1 + self.len]);
        if b[0] == 4 {
            return (x, N::from_bytes_be(&b[1 + self.len..]));
        }
        let y = self.lift(&x).unwrap();
        let y = if y.bit(0) == (b[0] == 3) { y } else { &self.p - y };
        (x, y)
    }
    pub fn self_check(&self) {
        let g = (self.gx.clone(), self.gy.clone());
        assert!(self.on_curve(&g), "{}: base point", self.name);
        for m in [&self.p, &self.n] {
            for base in [2u32, 3, 5, 7] {
                assert!(n(base).modpow(&(m - 1u32), m) == n(1), "{}: modulus", self.name);
            }
        }
        let last = self.mul_point(&(&self.n - 1u32), &g).expect("order");
        assert!(last.0 == g.0 && (&last.1 + &g.1) % &self.p == n(0), "{}: order of the base point", self.name);
        assert!(self.mul_point(&self.n, &g).is_none(), "{}: order of the base point", self.name);
        // (k + 1) G = k G + G, and the two multiplications agree
        for k in [1u32, 2, 3, 0xdead] {
            let a = self.mul_base(&n(k)).unwrap();
            let b = self.mul_base(&n(k + 1)).unwrap();
            assert!(self.on_curve(&a));
            assert!(self.affine(&self.add(&J(a.0.clone(), a.1.clone(), n(1)), &g)).unwrap() == b);
            assert!(self.mul_point(&n(k), &g).unwrap() == a);
        }
    }
}
