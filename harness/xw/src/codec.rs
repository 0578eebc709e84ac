//! C18: encodings.
use crate::face::*;
use crate::script::Script;
use vlib::ensure;
use vlib::engine::{expect_eq, Run};
use vlib::mlkem::{self, P768};
use vlib::rng::{b32, b32_len, stream};
use vlib::x25519::special_points;
use vlib::xwing;

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bg: [u8; 32] = stream("C18 background");
    let bg = &bg;
    run.explore("sizes", "the published constants against the sizes of the encodings", 3, |i, t| {
        let d = dk(bg);
        let e = d.encapsulation_key();
        let c = enc_rng(&e, &mut Script::new(&[3; 64])).0;
        let (name, got, constant, want) = [
            ("decapsulation key", d.as_bytes().len(), x_wing::DECAPSULATION_KEY_SIZE, 32),
            ("encapsulation key", e.as_bytes().len(), x_wing::ENCAPSULATION_KEY_SIZE, 1216),
            ("ciphertext", c.as_bytes().len(), x_wing::CIPHERTEXT_SIZE, 1120),
        ][i as usize];
        t.trace();
        ensure!(got == want && constant == want, "size", "{name}: encoding {got} bytes, constant {constant}, specified {want}");
        Ok(())
    });
    run.explore(
        "decapsulation keys",
        "the 32-byte alphabet: parse and serialise is the identity, also after cloning",
        b32_len(true),
        |i, t| {
            let s = b32(i, bg);
            let d = dk(&s);
            t.ops(3);
            t.trace();
            expect_eq("dk-round-trip", "decapsulation key", d.as_bytes(), &s)?;
            expect_eq("dk-round-trip", "cloned decapsulation key", d.clone().as_bytes(), &s)
        },
    );
    // ciphertexts: every byte position and value over three backgrounds
    let dense: [u8; 1120] = stream("C18 ciphertext");
    let backs = [vec![0u8; 1120], dense.to_vec(), vec![0xff; 1120]];
    let backs = &backs;
    run.explore(
        "ciphertexts",
        "3 backgrounds x every position x every value, and 256 constant fills: identity, also after cloning",
        3 * 1120 * 256 + 256,
        |i, t| {
            let c = if i < 256 {
                vec![i as u8; 1120]
            } else {
                let j = i - 256;
                let mut c = backs[(j % 3) as usize].clone();
                c[(j / 3 / 256) as usize] = (j / 3) as u8;
                c
            };
            let p = ct(&c);
            t.ops(2);
            t.trace();
            t.outcome(&c);
            expect_eq("ct-round-trip", "ciphertext", &p.as_bytes(), &c)?;
            if i % 64 == 0 {
                expect_eq("ct-round-trip", "cloned ciphertext", &p.clone().as_bytes(), &c)?;
            }
            Ok(())
        },
    );
    let kd: [u8; 32] = stream("C18 key");
    let honest = xwing::public_key(&kd);
    let honest = &honest;
    run.explore(
        "encapsulation keys",
        "{honest key, zero, 0xff} x every position x every value: byte for byte, unreduced ML-KEM coefficients reduced; ML-KEM part first",
        3 * 1216 * 256,
        |i, t| {
            let mut k = match i % 3 { 0 => honest.clone(), 1 => vec![0; 1216], _ => vec![0xff; 1216] };
            k[(i / 3 / 256) as usize] = (i / 3) as u8;
            let want = [&mlkem::canonical_ek(&P768, &k[..1184])[..], &k[1184..]].concat();
            let got = ek(&k).as_bytes();
            t.ops(2);
            t.trace();
            t.outcome(&want);
            expect_eq("ek-round-trip", &format!("encapsulation key, background {}, byte {}", i % 3, i / 3 / 256), &got, &want)
        },
    );
    run.explore(
        "unreduced coefficients",
        "every 12-bit value at every coefficient of the ML-KEM part (quick: 8 values around 0, q and 4095 at each of the 768 positions)",
        768 * run.pick(8, 4096),
        |i, t| {
            let vals = [0u16, 1, 3328, 3329, 3330, 4094, 4095, 2048];
            let (pos, v) = (i % 768, i / 768);
            let v = if v < 8 { vals[v as usize] } else { v as u16 };
            let mut k = honest.clone();
            let mut f = mlkem_raw(&k[(pos / 256 * 384) as usize..][..384]);
            f[(pos % 256) as usize] = v;
            let enc = mlkem::byte_encode(12, &f);
            k[(pos / 256 * 384) as usize..][..384].copy_from_slice(&enc);
            let want = [&mlkem::canonical_ek(&P768, &k[..1184])[..], &k[1184..]].concat();
            t.ops(2);
            t.trace();
            expect_eq("ek-round-trip", &format!("coefficient {pos} = {v}"), &ek(&k).as_bytes(), &want)
        },
    );
    let sp = special_points();
    run.explore(
        "special X25519 values",
        "every low-order, non-canonical and boundary X25519 value in keys and ciphertexts is kept as transmitted",
        sp.len() as u64,
        |i, t| {
            let (name, p) = &sp[i as usize];
            let k = [&honest[..1184], p].concat();
            let c = [&dense[..1088], p].concat();
            t.ops(4);
            t.trace();
            expect_eq("ek-round-trip", name, &ek(&k).as_bytes(), &k)?;
            expect_eq("ct-round-trip", name, &ct(&c).as_bytes(), &c)
        },
    );
    let n = run.pick(512u64, 4096);
    run.explore(
        "layout and parsed objects",
        "a pool of seeds: generated objects serialise as ML-KEM part then X25519 part; objects parsed from those bytes (once and twice) give the same results in every operation",
        n,
        |i, t| {
            let s = b32(i * 37 % b32_len(true), bg);
            let eseed: [u8; 64] = [b32(i * 91 % b32_len(true), bg), b32(i * 53 % b32_len(true), bg)].concat().try_into().unwrap();
            let e = xwing::expand(&s);
            let d = DecapsulationKey::generate(&mut Script::new(&s));
            let k = d.encapsulation_key();
            expect_eq("layout", "encapsulation key", &k.as_bytes(), &[&e.ek_m[..], &e.pk_x].concat())?;
            let (c, ss) = enc_rng(&k, &mut Script::new(&eseed));
            let (cm, ssm) = xwing::encaps(&k.as_bytes(), &eseed);
            expect_eq("layout", "ciphertext", &c.as_bytes(), &cm)?;
            expect_eq("layout", "secret", &ss, &ssm)?;
            let k2 = ek(&k.as_bytes());
            let k3 = ek(&k2.as_bytes());
            let c2 = ct(&c.as_bytes());
            let c3 = ct(&c2.as_bytes());
            let d2 = dk(d.as_bytes());
            for (name, k) in [("parsed", &k2), ("parsed twice", &k3), ("cloned", &k.clone())] {
                let r = enc(k, &eseed);
                ensure!(r.0 == cm && r.1 == ss, "parsed-differs", "{name} encapsulation key of seed {} encapsulates differently", vlib::hex(&s));
            }
            for d in [&d, &d2, &d.clone()] {
                for c in [&c, &c2, &c3, &c.clone()] {
                    ensure!(dec(d, c) == ss, "parsed-differs", "parsed or cloned objects of seed {} decapsulate differently", vlib::hex(&s));
                    t.ops(1);
                }
            }
            ensure!(k2 == k && k3 == k && c2 == c && c3 == c, "parsed-differs", "parsed objects of seed {} are not equal to the originals", vlib::hex(&s));
            t.ops(12);
            t.trace();
            t.outcome(&ss);
            Ok(())
        },
    );
}

/// the 12-bit fields of an encoding, unreduced
fn mlkem_raw(b: &[u8]) -> [u16; 256] {
    core::array::from_fn(|i| {
        let at = i / 2 * 3;
        if i % 2 == 0 {
            b[at] as u16 | (b[at + 1] as u16 & 15) << 8
        } else {
            (b[at + 1] >> 4) as u16 | (b[at + 2] as u16) << 4
        }
    })
}
