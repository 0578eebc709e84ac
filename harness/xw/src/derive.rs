//! C16: key derivation and encapsulation follow the draft.
use crate::face::*;
use crate::script::Script;
use vlib::ensure;
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::rng::{b32, b32_len, stream};
use vlib::x25519::special_points;
use vlib::xwing;

fn keys(seed: &[u8; 32], t: &mut Tally) -> Outcome {
    let want = xwing::public_key(seed);
    let what = |s: &str| format!("public key ({s}) of seed {}", vlib::hex(seed));
    let a = dk(seed);
    expect_eq("public-key", &what("parsed seed"), &a.encapsulation_key().as_bytes(), &want)?;
    expect_eq("seed", &what("seed kept"), a.as_bytes(), seed)?;
    let (b, pk) = x_wing::generate_key_pair(&mut Script::new(seed));
    expect_eq("public-key", &what("generated pair"), &pk.as_bytes(), &want)?;
    expect_eq("seed", &what("seed of the generated pair"), b.as_bytes(), seed)?;
    let c = DecapsulationKey::generate(&mut Script::new(seed));
    expect_eq("public-key", &what("generated, then derived"), &c.encapsulation_key().as_bytes(), &want)?;
    t.ops(5);
    t.trace();
    t.outcome(&want);
    t.sample(|| format!("seed {} -> {}", vlib::hex(seed), vlib::brief(&want)));
    Ok(())
}

/// Encapsulation against the model; if the holder's seed is given, the holder recovers the secret.
fn encaps(pk: &[u8], eseed: &[u8; 64], holder: Option<&[u8; 32]>, t: &mut Tally) -> Outcome {
    let (c, k) = xwing::encaps(pk, eseed);
    let (ci, ki) = enc(&ek(pk), eseed);
    let what = |s: &str| format!("{s} for key {} and randomness {}", vlib::brief(pk), vlib::hex(eseed));
    t.ops(1);
    t.trace();
    expect_eq("ciphertext", &what("ciphertext"), &ci, &c)?;
    expect_eq("secret", &what("shared secret"), &ki, &k)?;
    if let Some(s) = holder {
        expect_eq("recover", &what("secret recovered by the holder of the seed"), &dec(&dk(s), &ct(&ci)), &k)?;
        t.ops(1);
    }
    t.outcome(&k);
    t.sample(|| format!("{} -> {}", what("secret"), vlib::hex(&k)));
    Ok(())
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let bg: [u8; 32] = stream("C16 background");
    run.explore(
        "seeds",
        "256 constant fills, every value at every byte over zero and over dense backgrounds: derived keys by three routes",
        b32_len(true),
        |i, t| keys(&b32(i, &bg), t),
    );
    if run.thorough() {
        run.explore("seed pairs of bytes", "every pair of byte positions x 16 x 16 differences over a dense background", 496 * 256, |i, t| {
            let (mut a, mut b, mut k) = (0usize, 1usize, i / 256);
            while k > 0 {
                b += 1;
                if b == 32 {
                    a += 1;
                    b = a + 1;
                }
                k -= 1;
            }
            let mut s = bg;
            s[a] ^= (1 + i % 16 * 17) as u8;
            s[b] ^= (1 + i / 16 % 16 * 17) as u8;
            keys(&s, t)
        });
    }
    let seed: [u8; 32] = stream("C16 holder");
    let pk = xwing::public_key(&seed);
    let fixed: [u8; 32] = stream("C16 other half");
    let n = b32_len(true);
    run.explore(
        "ML-KEM half of the randomness",
        "the 32-byte alphabet for the message, ephemeral secret fixed; recovered by the holder",
        n,
        |i, t| encaps(&pk, &[b32(i, &bg), fixed].concat().try_into().unwrap(), Some(&seed), t),
    );
    run.explore(
        "X25519 half of the randomness",
        "the 32-byte alphabet for the ephemeral secret (all clamped bits included), message fixed; recovered by the holder",
        n,
        |i, t| encaps(&pk, &[fixed, b32(i, &bg)].concat().try_into().unwrap(), Some(&seed), t),
    );
    let sp = special_points();
    let np = sp.len() as u64;
    let ne = run.pick(24u64, 96);
    run.explore(
        "special X25519 keys",
        "every low-order, non-canonical and boundary X25519 public key in the encapsulation key x a pool of ephemeral secrets: the key enters the secret exactly as transmitted",
        np * ne,
        |i, t| {
            let (name, p) = &sp[(i % np) as usize];
            let mut k = pk.clone();
            k[1184..].copy_from_slice(p);
            let e = b32(i / np * 691 % n, &bg);
            t.sample(|| name.clone());
            encaps(&k, &[fixed, e].concat().try_into().unwrap(), None, t)
        },
    );
    run.explore(
        "X25519 key bytes",
        "every value at every byte of the X25519 part of the encapsulation key",
        32 * 256,
        |i, t| {
            let mut k = pk.clone();
            k[1184 + (i / 256) as usize] = i as u8;
            encaps(&k, &[fixed, bg].concat().try_into().unwrap(), None, t)
        },
    );
    let vals: &[u8] = if run.thorough() { &[1, 2, 4, 8, 16, 32, 64, 128, 0xff] } else { &[1, 0x10, 0xff] };
    let nv = vals.len() as u64;
    run.explore(
        "ML-KEM key bytes",
        "every byte of the ML-KEM part of the encapsulation key x 3 (thorough: 9) differences, reduced and unreduced",
        1184 * nv,
        |i, t| encaps(&flip(&pk, (i / nv) as usize, vals[(i % nv) as usize]), &[fixed, bg].concat().try_into().unwrap(), None, t),
    );
    let m = run.pick(12u64, 32);
    run.explore(
        "sender and receiver",
        "all triples (seed, message, ephemeral secret) of a pool: the receiver, held parsed, generated or cloned, recovers the sender's secret from the transmitted bytes",
        m * m * m,
        |i, t| {
            let f = |x: u64| b32(x * 1371 % n, &bg);
            let (s, msg, e) = (f(i % m), f(i / m % m), f(i / m / m));
            let a = match i % 3 {
                0 => dk(&s),
                1 => DecapsulationKey::generate(&mut Script::new(&s)),
                _ => x_wing::generate_key_pair(&mut Script::new(&s)).0.clone(),
            };
            let pkb = a.encapsulation_key().as_bytes();
            let (c, k) = enc(&ek(&pkb), &[msg, e].concat().try_into().unwrap());
            let got = dec(&a, &ct(&c));
            t.ops(4);
            t.trace();
            t.outcome(&got);
            ensure!(got == k, "recover", "seed {} message {} ephemeral {}: receiver has {}, sender {}", vlib::hex(&s), vlib::hex(&msg), vlib::hex(&e), vlib::hex(&got), vlib::hex(&k));
            Ok(())
        },
    );
}
