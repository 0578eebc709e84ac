//! Keccak-f[1600] and the FIPS 202 functions, written from the standard (lane = A[x + 5y]).

fn rc() -> [u64; 24] {
    // FIPS 202, algorithm 5: rc(t) by LFSR, computed rather than tabulated.
    let mut out = [0u64; 24];
    let mut lfsr: u16 = 1;
    let mut bit = || {
        let b = lfsr & 1;
        lfsr <<= 1;
        if lfsr & 0x100 != 0 {
            lfsr ^= 0x171;
        }
        b as u64
    };
    for r in out.iter_mut() {
        for j in 0..7 {
            *r |= bit() << ((1u32 << j) - 1);
        }
    }
    out
}

fn rotations() -> [u32; 25] {
    let mut r = [0u32; 25];
    let (mut x, mut y) = (1usize, 0usize);
    for t in 0..24u32 {
        r[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
        (x, y) = (y, (2 * x + 3 * y) % 5);
    }
    r
}

struct Consts {
    rc: [u64; 24],
    rot: [u32; 25],
}

fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| Consts { rc: rc(), rot: rotations() })
}

pub fn keccak_f(a: &mut [u64; 25]) {
    let k = consts();
    for round in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(k.rot[x + 5 * y]);
            }
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= k.rc[round];
    }
}

/// Sponge with byte-aligned messages.
#[derive(Clone)]
pub struct Sponge {
    a: [u64; 25],
    rate: usize,
    pos: usize,
    suffix: u8,
    squeezing: bool,
}

impl Sponge {
    pub fn new(rate: usize, suffix: u8) -> Self {
        Sponge { a: [0; 25], rate, pos: 0, suffix, squeezing: false }
    }
    pub fn shake128() -> Self {
        Self::new(168, 0x1f)
    }
    pub fn shake256() -> Self {
        Self::new(136, 0x1f)
    }
    fn xor(&mut self, i: usize, b: u8) {
        self.a[i / 8] ^= (b as u64) << (8 * (i % 8));
    }
    pub fn absorb(&mut self, m: &[u8]) -> &mut Self {
        assert!(!self.squeezing);
        for &b in m {
            self.xor(self.pos, b);
            self.pos += 1;
            if self.pos == self.rate {
                keccak_f(&mut self.a);
                self.pos = 0;
            }
        }
        self
    }
    pub fn squeeze(&mut self, out: &mut [u8]) {
        if !self.squeezing {
            self.xor(self.pos, self.suffix);
            self.xor(self.rate - 1, 0x80);
            keccak_f(&mut self.a);
            self.pos = 0;
            self.squeezing = true;
        }
        for o in out {
            if self.pos == self.rate {
                keccak_f(&mut self.a);
                self.pos = 0;
            }
            *o = (self.a[self.pos / 8] >> (8 * (self.pos % 8))) as u8;
            self.pos += 1;
        }
    }
}

fn hash<const N: usize>(mut s: Sponge, parts: &[&[u8]]) -> [u8; N] {
    for p in parts {
        s.absorb(p);
    }
    let mut out = [0; N];
    s.squeeze(&mut out);
    out
}

pub fn sha3_256(parts: &[&[u8]]) -> [u8; 32] {
    hash(Sponge::new(136, 0x06), parts)
}

pub fn sha3_512(parts: &[&[u8]]) -> [u8; 64] {
    hash(Sponge::new(72, 0x06), parts)
}

pub fn shake256_32(parts: &[&[u8]]) -> [u8; 32] {
    hash(Sponge::shake256(), parts)
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn kat() {
        assert_eq!(crate::hex(&sha3_256(&[b""])), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
        assert_eq!(crate::hex(&sha3_256(&[b"abc"])), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
        assert_eq!(crate::hex(&sha3_512(&[b"abc"])[..16]), "b751850b1a57168a5693cd924b6b096e");
        let mut o = [0; 16];
        Sponge::shake128().squeeze(&mut o);
        assert_eq!(crate::hex(&o), "7f9c2ba4e88f827d616045507605853e");
        Sponge::shake256().squeeze(&mut o);
        assert_eq!(crate::hex(&o), "46b9dd2b0ba88d13233b3feb743eeb24");
    }
}
