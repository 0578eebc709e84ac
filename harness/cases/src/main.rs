//! Writes cases with the results the models expect.   cases FAMILY SIZE
//! FAMILY: ml, xw, dh.  SIZE: tiny (one of each operation), quick, thorough.
#[allow(dead_code)]
#[path = "../../dh/src/model.rs"]
mod model;
use model::{n, Curve};
use num_bigint::BigUint as N;
use std::io::Write;
use vlib::hex;
use vlib::mlkem::{self, Params};
use vlib::rng::stream;

fn pattern(i: usize, len: usize, noise: &[u8]) -> Vec<u8> {
    (0..len)
        .map(|x| match i {
            0 => 0xff,
            1 => 0,
            2 => [0x00, 0x1d, 0xd0][x % 3],
            3 => [0x01, 0x1d, 0xd0][x % 3],
            4 => x as u8,
            5 => 0x55,
            6 => noise[x % noise.len()],
            7 => 0x80,
            8 => [0xff, 0x0f, 0x00][x % 3],
            9 => [0x00, 0xf0, 0xff][x % 3],
            _ => noise[(x * (2 * i + 1) + i) % noise.len()] ^ (x >> 8) as u8,
        })
        .collect()
}
fn word(i: usize, label: &str) -> [u8; 32] {
    match i {
        0 => stream(&format!("cases {label}")),
        1 => [0xff; 32],
        2 => [0; 32],
        3..=34 => {
            let mut o = [0; 32];
            o[i - 3] = 1 << (i % 8);
            o
        }
        35..=66 => {
            let mut o = [0xff; 32];
            o[i - 35] = 0x7f;
            o
        }
        _ => stream(&format!("cases {label} {i}")),
    }
}

struct Out(std::io::BufWriter<std::io::Stdout>);
impl Out {
    fn case(&mut self, op: &str, set: &str, args: &[&[u8]], want: &[&[u8]]) {
        let j = |v: &[&[u8]]| v.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ");
        writeln!(self.0, "{op} {set} {} = {}", j(args), j(want)).unwrap();
    }
}

fn ml(o: &mut Out, set: &str, p: &Params, size: usize) {
    let noise: [u8; 997] = stream("case patterns");
    let (ek, dk) = mlkem::keygen(p, &word(0, "d"), &word(0, "z"));
    let (ct, key) = mlkem::encaps(p, &ek, &word(0, "m"));
    let gen = |o: &mut Out, d: &[u8], z: &[u8]| {
        let (e, k) = mlkem::keygen(p, d, z);
        o.case("ml.gen", set, &[d, z], &[&e, &k]);
    };
    let enc = |o: &mut Out, ek: &[u8], m: &[u8]| {
        let (c, k) = mlkem::encaps(p, &mlkem::canonical_ek(p, ek), m);
        o.case("ml.enc", set, &[ek, m], &[&c, &k]);
    };
    let dec = |o: &mut Out, dk: &[u8], c: &[u8]| {
        let k = mlkem::decaps(p, &mlkem::canonical_dk(p, dk), c);
        o.case("ml.dec", set, &[dk, c], &[&k]);
    };
    if size == 0 {
        gen(o, &word(0, "d"), &word(0, "z"));
        enc(o, &pattern(0, p.ek_len(), &noise), &word(1, "m"));
        o.case("ml.dec", set, &[&dk, &ct], &[&key]);
        dec(o, &pattern(0, p.dk_len(), &noise), &pattern(0, p.ct_len(), &noise));
        let (e, d) = (pattern(2, p.ek_len(), &noise), pattern(3, p.dk_len(), &noise));
        o.case("ml.round", set, &[&e, &d], &[&mlkem::canonical_ek(p, &e), &mlkem::canonical_dk(p, &d)]);
        return;
    }
    let many = if size == 1 { 24 } else { 400 };
    for i in 0..many {
        gen(o, &word(i * 3 % 71 + i / 71 * 71, "d"), &word(i, "z"));
        gen(o, &word(i, "d'"), &word(0, "z"));
        enc(o, &ek, &word(i, "m"));
        enc(o, &pattern(i, p.ek_len(), &noise), &word(i * 5 % 71, "m'"));
        dec(o, &pattern(i, p.dk_len(), &noise), &pattern(i * 7 % many, p.ct_len(), &noise));
        dec(o, &dk, &pattern(i, p.ct_len(), &noise));
        let mut c = ct.clone();
        let at = i * (c.len() - 1) / (many - 1);
        c[at] ^= 1 << (i % 8);
        dec(o, &dk, &c);
        let (d, z, m) = (word(i + 67, "d"), word(i, "z"), word(i, "m"));
        let (ek, dk) = mlkem::keygen(p, &d, &z);
        let (c, k) = mlkem::encaps(p, &ek, &m);
        assert!(mlkem::decaps(p, &dk, &c) == k);
        o.case("ml.all", set, &[&d, &z, &m], &[&c, &k]);
        let (e, d) = (pattern(i, p.ek_len(), &noise), pattern(i * 3 + 1, p.dk_len(), &noise));
        o.case("ml.round", set, &[&e, &d], &[&mlkem::canonical_ek(p, &e), &mlkem::canonical_dk(p, &d)]);
    }
}

fn xw(o: &mut Out, size: usize) {
    use vlib::xwing::*;
    let noise: [u8; 997] = stream("case patterns");
    let e64 = |i: usize| -> [u8; 64] { [word(i, "em"), word(i * 3 % 71, "ex")].concat().try_into().unwrap() };
    let sk = word(0, "sk");
    let pk = public_key(&sk);
    let (ct, _) = encaps(&pk, &e64(0));
    let gen = |o: &mut Out, sk: &[u8; 32]| o.case("xw.gen", "-", &[sk], &[&public_key(sk)]);
    let enc = |o: &mut Out, pk: &[u8], e: &[u8; 64]| {
        let (c, s) = encaps(pk, e);
        o.case("xw.enc", "-", &[pk, e], &[&c, &s]);
    };
    let dec = |o: &mut Out, sk: &[u8; 32], c: &[u8]| o.case("xw.dec", "-", &[sk, c], &[&decaps(sk, c)]);
    let round = |o: &mut Out, i: usize| {
        let (e, c) = (pattern(i, 1216, &noise), pattern(i + 1, 1120, &noise));
        let ce = [&mlkem::canonical_ek(&mlkem::P768, &e[..1184])[..], &e[1184..]].concat();
        o.case("xw.round", "-", &[&e, &c], &[&ce, &c]);
    };
    if size == 0 {
        gen(o, &sk);
        enc(o, &pattern(3, 1216, &noise), &e64(1));
        dec(o, &sk, &pattern(0, 1120, &noise));
        dec(o, &sk, &ct);
        round(o, 0);
        return;
    }
    let sp = vlib::x25519::special_points();
    for i in 0..if size == 1 { 24 } else { 300 } {
        gen(o, &word(i, "sk"));
        enc(o, &pk, &e64(i));
        enc(o, &pattern(i, 1216, &noise), &e64(i + 40));
        enc(o, &[&pk[..1184], &sp[i % sp.len()].1].concat(), &e64(i));
        dec(o, &word(i, "sk"), &pattern(i * 5 % 31, 1120, &noise));
        dec(o, &sk, &[&ct[..1088], &sp[i % sp.len()].1].concat());
        let s = word(i, "sk");
        dec(o, &s, &encaps(&public_key(&s), &e64(i)).0);
        let mut c = ct.clone();
        c[i * 1119 / 300] ^= 1 << (i % 8);
        dec(o, &sk, &c);
        round(o, i);
    }
}

fn dh(o: &mut Out, size: usize) {
    use vlib::x25519::{special_points, x25519, BASE};
    let some = [3, 6, 60][size];
    for (name, c) in [("Secp256k1", Curve::k256()), ("P256", Curve::p256()), ("P384", Curve::p384()), ("P521", Curve::p521())] {
        if size > 0 {
            c.self_check();
        }
        let one = n(1);
        let mut k = vec![N::from_bytes_be(&stream::<40>(&format!("cases {name}"))) % &c.n, &c.n - 1u32, n(2), one.clone(), (&c.n - 1u32) >> 1, &one << (c.n.bits() - 1)];
        for i in 0..60u64 {
            k.push(&one << (i * c.n.bits() / 61));
        }
        for (i, a) in k.iter().take(some).enumerate() {
            let b = if size == 0 { n(5) } else { &k[(i + 1) % k.len()] % &c.n };
            let ab = c.bytes(a);
            let pa = c.mul_base(a).unwrap();
            let pb = c.mul_base(&b).unwrap();
            let s = c.bytes(&c.mul_base(&(a * &b % &c.n)).unwrap().0);
            let compressed = i % 2 == 1;
            let (want_gen, want_enc, want_dec) = (size > 0 || i == 0, size > 0 || i == 1, size > 0 || i == 2);
            if want_gen {
                o.case("dh.gen", name, &[&ab], &[&c.encode(&pa, false)]);
            }
            if want_enc {
                o.case("dh.enc", name, &[&c.encode(&pb, compressed), &ab], &[&c.encode(&pa, false), &s]);
            }
            if want_dec {
                o.case("dh.dec", name, &[&ab, &c.encode(&pb, compressed)], &[&s]);
            }
        }
    }
    let sp = special_points();
    for i in 0..some {
        let (a, b) = (word(i, "xa"), if size == 0 || i % 2 == 0 { x25519(&word(i, "xb"), &BASE) } else { sp[i % sp.len()].1 });
        let (pa, s) = (x25519(&a, &BASE), x25519(&a, &b));
        if size > 0 || i == 0 {
            o.case("dh.gen", "X25519", &[&a], &[&pa]);
        }
        if size > 0 || i == 1 {
            o.case("dh.enc", "X25519", &[&b, &a], &[&pa, &s]);
        }
        if size > 0 || i == 2 {
            o.case("dh.dec", "X25519", &[&a, &b], &[&s]);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let size = ["tiny", "quick", "thorough"].iter().position(|s| *s == a[2]).expect("size");
    let mut o = Out(std::io::BufWriter::new(std::io::stdout()));
    if size > 0 {
        mlkem::self_check();
        vlib::vectors::mlkem_vectors();
    }
    for f in a[1].split(',') {
        match f {
            "ml" => {
                ml(&mut o, "512", &mlkem::P512, size);
                ml(&mut o, "768", &mlkem::P768, size);
                ml(&mut o, "1024", &mlkem::P1024, size);
            }
            "xw" => xw(&mut o, size),
            "dh" => dh(&mut o, size),
            _ => panic!("unknown family"),
        }
    }
    o.0.flush().unwrap();
}
