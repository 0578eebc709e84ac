//! C17: decapsulation of every ciphertext, honest or not.
use crate::face::*;
use vlib::engine::{fail, Outcome, Run, Tally};
use vlib::mlkem;
use vlib::rng::{b32, b32_len, stream};
use vlib::x25519::{special_points, x25519};
use vlib::xwing::{self, Expanded};

struct Base {
    seed: [u8; 32],
    e: Expanded,
    ct: Vec<u8>,
    key: [u8; 32],
}

fn base(label: &str) -> Base {
    let s: [u8; 96] = stream(label);
    let seed = s[..32].try_into().unwrap();
    let e = xwing::expand(&seed);
    let pk = [&e.ek_m[..], &e.pk_x].concat();
    let (ct, key) = xwing::encaps(&pk, s[32..].try_into().unwrap());
    Base { seed, e, ct, key }
}

fn judge(b: &Base, got: &[u8; 32], c: &[u8], what: impl Fn() -> String) -> Outcome {
    let want = xwing::decaps_expanded(&b.e, c);
    if *got == want {
        return Ok(());
    }
    let kind = if *got == b.key && c != b.ct { "honest-secret-for-altered-ciphertext" } else { "wrong-secret" };
    fail(kind, format!("{}: got {}, model {}", what(), vlib::hex(got), vlib::hex(&want)))
}

/// The model's answer with the ML-KEM part assumed rejected (if altered); the full model decides
/// whenever that does not match.
fn near(b: &Base, d: &DecapsulationKey, c: &[u8], ss_m: &[u8; 32], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let got = dec(d, &ct(c));
    t.ops(1);
    t.trace();
    let z = &b.e.dk_m[b.e.dk_m.len() - 32..];
    let m = if c[..1088] == b.ct[..1088] { *ss_m } else { mlkem::reject(z, &c[..1088]) };
    let cx: [u8; 32] = c[1088..].try_into().unwrap();
    if xwing::combiner(&m, &x25519(&b.e.sk_x, &cx), &cx, &b.e.pk_x) == got && c != b.ct {
        return Ok(());
    }
    judge(b, &got, c, what)
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let b = base("C17 base");
    let b = &b;
    let ss_m = mlkem::decaps(&mlkem::P768, &b.e.dk_m, &b.ct[..1088]);
    let ss_m = &ss_m;
    run.explore(
        "single-byte substitutions",
        "every position of an honest ciphertext (both components) x every one of the 255 other values",
        1120 * 255,
        |i, t| {
            let (delta, pos) = ((i % 255 + 1) as u8, (i / 255) as usize);
            let c = flip(&b.ct, pos, delta);
            near(b, &dk(&b.seed), &c, ss_m, || format!("c[{pos}] ^= {delta:#04x}"), t)
        },
    );
    run.explore(
        "runs of altered bytes",
        "every count n of altered bytes from 1 to 1120 x {first n, last n, every second} x 2 alterations",
        1120 * 6,
        |i, t| {
            let (kind, n) = (i % 6, (i / 6 + 1) as usize);
            let mut c = b.ct.clone();
            for x in 0..n {
                let at = match kind / 2 { 0 => x, 1 => 1119 - x, _ => 2 * x };
                if at < 1120 {
                    c[at] = if kind % 2 == 0 { c[at] ^ 0x80 } else { c[at].wrapping_add(1) };
                }
            }
            near(b, &dk(&b.seed), &c, ss_m, || format!("{n} bytes altered, kind {kind}"), t)
        },
    );
    let dist: Vec<usize> = if run.thorough() {
        (1..1120).filter(|d| d % 7 == 0 || *d < 64 || usize::is_power_of_two(*d) || *d > 1080).collect()
    } else {
        vec![1, 2, 4, 8, 16, 32, 64, 128, 320, 544, 560, 960, 1088]
    };
    let dist = &dist;
    run.explore(
        "cancelling pairs",
        "every pair of positions at the chosen distances, altered by equal xor differences or by +1/-1",
        (1120 * dist.len() * 2) as u64,
        |i, t| {
            let i = i as usize;
            let (a, d, kind) = (i % 1120, dist[i / 1120 % dist.len()], i / 1120 / dist.len());
            if a + d >= 1120 {
                return Ok(());
            }
            let mut c = b.ct.clone();
            if kind == 0 {
                c[a] ^= 1;
                c[a + d] ^= 1;
            } else {
                c[a] = c[a].wrapping_add(1);
                c[a + d] = c[a + d].wrapping_sub(1);
            }
            near(b, &dk(&b.seed), &c, ss_m, || format!("bytes {a} and {} altered, kind {kind}", a + d), t)
        },
    );
    let sp = special_points();
    let np = sp.len() as u64;
    let ns = run.pick(48u64, 200);
    let bg: [u8; 32] = stream("C17 background");
    run.explore(
        "special X25519 ciphertexts",
        "every low-order, non-canonical and boundary X25519 value (with and without the high bit) x a pool of seeds x ML-KEM part {honest, altered}",
        np * ns * 2,
        |i, t| {
            let (bad, i) = (i % 2, i / 2);
            let (name, p) = &sp[(i % np) as usize];
            let seed = b32(i / np * 343 % b32_len(true), &bg);
            let e = xwing::expand(&seed);
            let (cm, _) = mlkem::encaps(&mlkem::P768, &e.ek_m, &[5; 32]);
            let mut c = [&cm[..], p].concat();
            c[1087] ^= bad as u8;
            let got = dec(&dk(&seed), &ct(&c));
            t.ops(1);
            t.trace();
            t.outcome(&got);
            t.sample(|| name.clone());
            let want = xwing::decaps_expanded(&e, &c);
            vlib::ensure!(got == want, "wrong-secret", "X25519 part {name}, seed {}: got {}, model {}", vlib::hex(&seed), vlib::hex(&got), vlib::hex(&want));
            Ok(())
        },
    );
    run.explore(
        "X25519 ciphertext alphabet",
        "256 fills and every value at every byte over zero and dense backgrounds in the X25519 component",
        b32_len(true),
        |i, t| {
            let c = [&b.ct[..1088], &b32(i, &bg)].concat();
            near(b, &dk(&b.seed), &c, ss_m, || format!("X25519 part {}", vlib::hex(&c[1088..])), t)
        },
    );
    run.explore(
        "seed alphabet",
        "the 32-byte alphabet of seeds x {honest, ML-KEM part altered, X25519 part altered} ciphertexts of another key pair and of its own",
        b32_len(true),
        |i, t| {
            let seed = b32(i, &bg);
            let e = xwing::expand(&seed);
            let own = xwing::encaps(&[&e.ek_m[..], &e.pk_x].concat(), &[i as u8; 64]).0;
            let d = dk(&seed);
            let at = (i * 37 % 1120) as usize;
            for (name, c) in [("own", own.clone()), ("own altered", flip(&own, at, 1 << (i % 8))), ("foreign", b.ct.clone())] {
                let got = dec(&d, &ct(&c));
                t.ops(1);
                t.trace();
                t.outcome(&got);
                let want = xwing::decaps_expanded(&e, &c);
                vlib::ensure!(got == want, "wrong-secret", "seed {}, {name} ciphertext (byte {at}): got {}, model {}", vlib::hex(&seed), vlib::hex(&got), vlib::hex(&want));
            }
            Ok(())
        },
    );
    run.explore(
        "constant and structured ciphertexts",
        "ML-KEM parts: 256 fills and every compressed value of every u and v coefficient class repeated; X25519 parts: honest, zero, fill",
        (256 + 1024 + 16) * 3,
        |i, t| {
            let (x, i) = (i % 3, i / 3);
            let mut cm = b.ct[..1088].to_vec();
            if i < 256 {
                cm.fill(i as u8);
            } else if i < 256 + 1024 {
                let f = [(i - 256) as u16; 256];
                let e = mlkem::byte_encode(10, &f);
                for k in 0..3 {
                    cm[k * 320..(k + 1) * 320].copy_from_slice(&e);
                }
            } else {
                cm[960..].copy_from_slice(&mlkem::byte_encode(4, &[(i - 1280) as u16; 256]));
            }
            let cx = match x { 0 => b.ct[1088..].to_vec(), 1 => vec![0; 32], _ => vec![i as u8; 32] };
            let c = [cm, cx].concat();
            let got = dec(&dk(&b.seed), &ct(&c));
            t.ops(1);
            t.trace();
            t.outcome(&got);
            judge(b, &got, &c, || format!("structured ciphertext {i}, X25519 kind {x}"))
        },
    );
}
