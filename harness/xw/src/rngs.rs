//! C11 (X-Wing part): the generator contract.
use crate::face::*;
use crate::script::*;
use vlib::ensure;
use vlib::engine::{expect_eq, Outcome, Run};
use vlib::rng::{b32, b32_len, stream};
use vlib::xwing;

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bg: [u8; 64] = stream("C11 x-wing background");
    let bg = &bg;
    let pad = [0xd6u8; 64];
    run.explore("key generation bytes", "the 32-byte alphabet, by both constructors: exactly the 32 bytes of the seed", 2 * b32_len(true), |i, t| {
        let s = b32(i / 2, &bg[..32].try_into().unwrap());
        let script = [&s[..], &pad].concat();
        let mut g = Script::new(&script);
        let d = if i % 2 == 0 { DecapsulationKey::generate(&mut g) } else { x_wing::generate_key_pair(&mut g).0 };
        t.ops(1);
        t.trace();
        ensure!(g.used == 32, "rng-amount", "key generation from {} drew {} bytes ({:?}), not 32", vlib::hex(&s), g.used, g.calls);
        expect_eq("rng-keygen", "the seed", d.as_bytes(), &s)
    });
    let seed: [u8; 32] = stream("C11 x-wing key");
    let pk = xwing::public_key(&seed);
    let pk = &pk;
    run.explore("encapsulation bytes", "every value at every one of the 64 drawn bytes over a dense background, and all constant fills: message then ephemeral key, exactly 64 bytes", 64 * 255 + 256, |i, t| {
        let mut e = *bg;
        if i < 256 {
            e = [i as u8; 64];
        } else {
            e[((i - 256) / 255) as usize] ^= ((i - 256) % 255 + 1) as u8;
        }
        let script = [&e[..], &pad].concat();
        let mut g = Script::new(&script);
        let (c, k) = enc_rng(&ek(pk), &mut g);
        t.ops(1);
        t.trace();
        ensure!(g.used == 64, "rng-amount", "encapsulation with {} drew {} bytes ({:?}), not 64", vlib::hex(&e), g.used, g.calls);
        let (cm, km) = xwing::encaps(pk, &e);
        t.outcome(&km);
        expect_eq("rng-encaps", "ciphertext", &c.as_bytes(), &cm)?;
        expect_eq("rng-encaps", "shared secret", &k, &km)
    });
    run.explore("operation sequences on one generator", "all sequences of 1..5 operations from {key, key pair, encapsulation} drawing from one generator: consecutive bytes in order", 3 + 9 + 27 + 81 + 243, |i, t| {
        let (mut j, mut len) = (i, 1u32);
        while j >= 3u64.pow(len) {
            j -= 3u64.pow(len);
            len += 1;
        }
        let script: [u8; 512] = stream("C11 x-wing shared generator");
        let mut g = Script::new(&script);
        let mut at = 0;
        for b in 0..len {
            let next32: [u8; 32] = script[at..at + 32].try_into().unwrap();
            match j / 3u64.pow(b) % 3 {
                0 => {
                    expect_eq("rng-order", "key", DecapsulationKey::generate(&mut g).as_bytes(), &next32)?;
                    at += 32;
                }
                1 => {
                    let (d, p) = x_wing::generate_key_pair(&mut g);
                    expect_eq("rng-order", "key of a pair", d.as_bytes(), &next32)?;
                    expect_eq("rng-order", "public key of a pair", &p.as_bytes(), &xwing::public_key(&next32))?;
                    at += 32;
                }
                _ => {
                    let (c, k) = enc_rng(&ek(pk), &mut g);
                    let (cm, km) = xwing::encaps(pk, script[at..at + 64].try_into().unwrap());
                    at += 64;
                    expect_eq("rng-order", "encapsulation", &[&c.as_bytes()[..], &k].concat(), &[&cm[..], &km].concat())?;
                }
            }
            t.ops(1);
            t.trace();
            ensure!(g.used == at, "rng-amount", "{} bytes drawn after operation {b} of sequence {j}, expected {at}", g.used);
        }
        Ok(())
    });
    run.explore("generator failures", "{key, key pair, encapsulation} x 16 contents x failure at every call after {none, one, half, all but one, all} bytes: no result, key unchanged and usable", 3 * 16, |i, t| {
        let (s, j) = (i % 3, i / 3);
        let bytes: [u8; 64] = if j == 0 { [0; 64] } else { stream(&format!("C11 x-wing failure {j}")) };
        let d = dk(&seed);
        let p = ek(pk);
        let (cm, km) = xwing::encaps(pk, &[7; 64]);
        let alive = || -> Outcome {
            ensure!(d.as_bytes() == &seed && p.as_bytes()[..] == pk[..], "rng-failure-key", "a failed operation changed the key");
            let (c, k) = enc(&p, &[7; 64]);
            ensure!(c == cm && k == km && dec(&d, &ct(&c)) == km, "rng-failure-key", "the key gives other results after a failed operation");
            Ok(())
        };
        let n = match s {
            0 => every_failure("X-Wing key generation", &bytes, |g| Some(DecapsulationKey::generate(g)), alive)?,
            1 => every_failure("X-Wing key pair generation", &bytes, |g| Some(x_wing::generate_key_pair(g)), alive)?,
            _ => every_failure("X-Wing encapsulation", &bytes, |g| Some(enc_rng(&p, g)), alive)?,
        };
        t.states += n;
        t.ops(n);
        t.traces += n;
        Ok(())
    });
}
