//! The operations, on keys both threads share.
use crate::scheme::*;
use crate::trap::place;
use dhkem::DhKem;
use elliptic_curve::sec1::ToEncodedPoint;
use kem::{Decapsulate, Encapsulate};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;
use vlib::mlkem;
use vlib::rng::stream;

pub struct Op {
    pub name: String,
    pub run: Box<dyn Fn() -> Vec<u8> + Send + Sync>,
}
pub struct Group {
    pub name: String,
    pub ops: Vec<Op>,
}
/// An object in the arena, whether or not its type may be shared (another check's business).
struct Both<T: 'static>(&'static T);
unsafe impl<T> Send for Both<T> {}
unsafe impl<T> Sync for Both<T> {}
impl<T> Clone for Both<T> {
    fn clone(&self) -> Self {
        Both(self.0)
    }
}
impl<T> Both<T> {
    fn new(x: T) -> Self {
        Both(place(x))
    }
    fn get(&self) -> &'static T {
        self.0
    }
}

pub fn digest(b: &[u8]) -> Vec<u8> {
    if b.len() <= 64 {
        return b.to_vec();
    }
    let mut v = (b.len() as u64).to_le_bytes().to_vec();
    v.extend(vlib::keccak::sha3_256(&[b]));
    v
}

fn op(name: impl Into<String>, f: impl Fn() -> Vec<u8> + Send + Sync + 'static) -> Op {
    Op { name: name.into(), run: Box::new(move || digest(&f())) }
}

fn ml<S: Scheme>(all: bool) -> Vec<Op> {
    let p = S::P;
    let nm = p.name();
    let mut out = vec![];
    let seeds: Vec<([u8; 32], [u8; 32])> = (0..2).map(|i| (stream(&format!("pre d{i}")), stream(&format!("pre z{i}")))).collect();
    let m: [u8; 32] = stream("pre m");
    let made: Vec<_> = seeds.iter().map(|(d, z)| mlkem::keygen(&p, d, z)).collect();
    let mut dks = vec![];
    let mut eks = vec![];
    for (ek, dk) in &made {
        dks.push(Both::new(S::dk_parse(dk)));
        eks.push(Both::new(S::ek_parse(ek)));
    }
    for (i, (d, z)) in seeds.iter().copied().enumerate().take(if all { 2 } else { 1 }) {
        out.push(op(format!("{nm} keygen {i}"), move || {
            let (dk, ek) = S::gen_rng(&mut Tape(&[d, z].concat()));
            [S::ek_bytes(&ek), S::dk_bytes(&dk)].concat()
        }));
    }
    for i in 0..2 {
        let k = eks[i].clone();
        out.push(op(format!("{nm} encaps to {i}"), move || {
            let (c, s) = S::enc_det(k.get(), &m);
            [&c[..], &s].concat()
        }));
    }
    for i in 0..2 {
        let (c, _) = mlkem::encaps(&p, &made[i].0, &m);
        let mut bad = c.clone();
        bad[c.len() - 1] ^= 1;
        for (n, c) in [("honest", c), ("altered", bad)].into_iter().take(if i == 0 { 2 } else { 1 }) {
            let k = dks[i].clone();
            out.push(op(format!("{nm} decaps with {i}, {n}"), move || S::dec(k.get(), &c).to_vec()));
        }
    }
    if all {
        let b = made[1].1.clone();
        let k = dks[0].clone();
        out.push(op(format!("{nm} parse, compare, clone and serialise"), move || {
            let x = S::dk_parse(&b);
            let y = k.get().clone();
            [vec![(x == y) as u8], S::dk_bytes(&x), S::dk_bytes(&y), S::ek_bytes(S::ek_of(&y))].concat()
        }));
    }
    out
}

fn xw() -> Vec<Op> {
    let mut out = vec![];
    let seeds: Vec<[u8; 32]> = (0..2).map(|i| stream(&format!("pre x-wing {i}"))).collect();
    let e: [u8; 64] = stream("pre x-wing e");
    let pks: Vec<Vec<u8>> = seeds.iter().map(vlib::xwing::public_key).collect();
    let dks: Vec<_> = seeds.iter().map(|s| Both::new(x_wing::DecapsulationKey::from(*s))).collect();
    let eks: Vec<_> = pks.iter().map(|p| Both::new(x_wing::EncapsulationKey::from(<&[u8; 1216]>::try_from(&p[..]).unwrap()))).collect();
    let s0 = seeds[0];
    out.push(op("X-Wing generate", move || {
        let (d, p) = x_wing::generate_key_pair(&mut Tape(&s0));
        [&d.as_bytes()[..], &p.as_bytes()].concat()
    }));
    for i in 0..2 {
        let (k, d) = (eks[i].clone(), dks[i].clone());
        out.push(op(format!("X-Wing public key of {i}"), move || d.get().encapsulation_key().as_bytes().to_vec()));
        out.push(op(format!("X-Wing encaps to {i}"), move || {
            let (c, s) = k.get().encapsulate(&mut Tape(&e)).unwrap();
            [&c.as_bytes()[..], &s].concat()
        }));
        let (c, _) = vlib::xwing::encaps(&pks[i], &e);
        let mut bad = c.clone();
        bad[5] ^= 1;
        for (n, c) in [("honest", c), ("altered", bad)].into_iter().take(2 - i) {
            let d = dks[i].clone();
            let c = Both::new(x_wing::Ciphertext::from(<&[u8; 1120]>::try_from(&c[..]).unwrap()));
            out.push(op(format!("X-Wing decaps with {i}, {n}"), move || d.get().decapsulate(c.get()).unwrap().to_vec()));
        }
    }
    out
}

macro_rules! dh {
    ($kem:ty, $name:expr, $len:expr, $bytes:expr, $secret:expr) => {{
        let mut out = vec![];
        let mut tapes: Vec<Vec<u8>> = (0..3).map(|i| { let s: [u8; 96] = stream(&format!("pre dh {i}")); s[..$len].to_vec() }).collect();
        for t in &mut tapes {
            // below every order, whatever the byte order
            t[0] = 0;
            t[$len - 1] &= 0x7f;
        }
        type K = $kem;
        let pairs: Vec<_> = tapes.iter().map(|t| { let (d, e) = K::random_keypair(&mut Tape(t)); (Both::new(d), Both::new(e)) }).collect();
        let t0 = tapes[0].clone();
        let third = pairs[2].1.clone();
        out.push(op(concat!($name, " generate"), move || {
            let (d, e) = K::random_keypair(&mut Tape(&t0));
            [$bytes(e.as_ref()), $secret(&d.decapsulate(third.get().as_ref()).unwrap())].concat()
        }));
        for i in 0..2 {
            let (e, d, t, peer) = (pairs[i].1.clone(), pairs[i].0.clone(), tapes[2].clone(), pairs[2].1.clone());
            out.push(op(format!(concat!($name, " encaps to {}"), i), move || {
                let (c, s) = e.get().encapsulate(&mut Tape(&t)).unwrap();
                [$bytes(&c), $secret(&s)].concat()
            }));
            out.push(op(format!(concat!($name, " decaps with {}"), i), move || $secret(&d.get().decapsulate(peer.get().as_ref()).unwrap())));
        }
        out
    }};
}

macro_rules! weierstrass {
    ($kem:ty, $name:expr, $len:expr) => {
        dh!($kem, $name, $len,
            |p: &<$kem as DhKem>::EncapsulatedKey| p.to_encoded_point(false).as_bytes().to_vec(),
            |s: &<$kem as DhKem>::SharedSecret| s.raw_secret_bytes().to_vec())
    };
}

/// The operations in groups; interference is explored within a group.
pub fn groups() -> Vec<Group> {
    let g = |name: &str, ops: Vec<Op>| Group { name: name.into(), ops };
    let mut mixed = ml::<S512>(true);
    mixed.extend(ml::<S768>(false));
    mixed.extend(ml::<S1024>(false));
    let mut hybrid = xw();
    hybrid.extend(ml::<S768>(false).into_iter().take(4));
    vec![
        g("ML-KEM", mixed),
        g("X-Wing", hybrid),
        g("X25519", dh!(dhkem::X25519Kem, "X25519", 32, |p: &<dhkem::X25519Kem as DhKem>::EncapsulatedKey| p.as_bytes().to_vec(), |s: &<dhkem::X25519Kem as DhKem>::SharedSecret| s.as_bytes().to_vec())),
        g("secp256k1", weierstrass!(dhkem::Secp256k1Kem, "secp256k1", 32)),
        g("P-256", weierstrass!(dhkem::NistP256Kem, "P-256", 32)),
        g("P-384", weierstrass!(dhkem::NistP384Kem, "P-384", 48)),
        g("P-521", weierstrass!(dhkem::NistP521Kem, "P-521", 66)),
    ]
}

/// Small programmes with and without interference.
pub fn toys() -> Vec<Group> {
    static COUNT: AtomicU32 = AtomicU32::new(0);
    static CACHE: [AtomicU8; 9] = [const { AtomicU8::new(0) }; 9];
    static GUARDED: Mutex<[u8; 9]> = Mutex::new([0; 9]);
    static ONCE: AtomicU32 = AtomicU32::new(0);
    fn work(i: u8) -> Vec<u8> {
        (1..9).map(|x| x * (i + 1)).collect()
    }
    let both = |f: fn(u8) -> Vec<u8>| vec![op("toy 0", move || f(0)), op("toy 1", move || f(1))];
    let cell = Both::new(std::cell::Cell::new(0u8));
    let on_key = |i: u8| {
        let c = cell.clone();
        op(format!("toy key {i}"), move || {
            c.get().set(std::hint::black_box(i));
            std::hint::black_box(&c);
            vec![c.get().get()]
        })
    };
    let keyed = vec![on_key(0), on_key(1)];
    vec![
        // a scratch variable
        Group { name: "scratch".into(), ops: both(|i| {
            COUNT.store(i as u32, SeqCst);
            let v = work(i);
            std::hint::black_box(&v);
            [v, vec![COUNT.load(SeqCst) as u8]].concat()
        }) },
        // a cache that is read without checking again
        Group { name: "cache".into(), ops: both(|i| {
            if CACHE[0].load(SeqCst) == i + 1 {
                return CACHE[1..].iter().map(|c| c.load(SeqCst)).collect();
            }
            let v = work(i);
            CACHE[0].store(0, SeqCst);
            for (c, x) in CACHE[1..].iter().zip(&v) {
                c.store(*x, SeqCst);
            }
            CACHE[0].store(i + 1, SeqCst);
            v
        }) },
        // the same under a lock
        Group { name: "lock".into(), ops: both(|i| {
            let mut g = GUARDED.lock().unwrap();
            if g[0] == i + 1 {
                return g[1..].to_vec();
            }
            let v = work(i);
            g[0] = i + 1;
            g[1..].copy_from_slice(&v);
            v
        }) },
        // initialisation of a constant
        Group { name: "once".into(), ops: both(|i| {
            if ONCE.load(SeqCst) == 0 {
                ONCE.store(77, SeqCst);
            }
            [work(i), vec![ONCE.load(SeqCst) as u8]].concat()
        }) },
        // an object that keeps something of the last call
        Group { name: "key".into(), ops: keyed },
    ]
}
