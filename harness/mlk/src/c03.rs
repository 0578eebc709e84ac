//! C03: honest agreement over every provenance of the keys, and exact decryption of every value.
use crate::scheme::*;
use vlib::engine::{expect_eq, fail, Outcome, Run, Tally};
#[cfg(kems_verif)]
use vlib::mlkem::{self, Poly};
use vlib::rng::{b32, b32_len, stream};

const STEPS: usize = 4; // clone and drop the original; move to the heap; serialise and parse; move within a vector

fn words(max: u32) -> u64 {
    (0..=max).map(|l| (STEPS as u64).pow(l)).sum()
}

/// The i-th word over the steps, shortest first.
fn word(mut i: u64) -> Vec<usize> {
    let mut l = 0;
    while i >= (STEPS as u64).pow(l) {
        i -= (STEPS as u64).pow(l);
        l += 1;
    }
    (0..l).map(|_| { let s = (i % STEPS as u64) as usize; i /= STEPS as u64; s }).collect()
}

fn travel<T: Clone>(x: T, w: &[usize], reparse: impl Fn(&T) -> T) -> T {
    let mut x = x;
    for s in w {
        x = match s {
            0 => { let y = x.clone(); drop(x); y }
            1 => *std::hint::black_box(Box::new(x)),
            2 => { let y = reparse(&x); drop(x); y }
            _ => {
                let mut v = Vec::with_capacity(1);
                v.push(x.clone());
                v.push(x); // reallocates
                drop(v.remove(0));
                v.pop().unwrap()
            }
        };
    }
    x
}

fn provenance<S: Scheme>(seed: &[u8; 64], dw: &[usize], src: u64, ew: &[usize], m: &[u8; 32], t: &mut Tally) -> Outcome {
    let (d, z) = (seed[..32].try_into().unwrap(), seed[32..].try_into().unwrap());
    let (dk, ek0) = S::gen_det(d, z);
    let early = S::ek_of(&dk).clone();
    let dk = travel(dk, dw, |k| S::dk_parse(&S::dk_bytes(k)));
    let ek = match src {
        0 => ek0,
        1 => early,
        2 => S::ek_of(&dk).clone(),
        _ => { let b = S::dk_bytes(&dk); S::ek_parse(&b[384 * S::P.k..768 * S::P.k + 32]) }
    };
    let ek = travel(ek, ew, |k| S::ek_parse(&S::ek_bytes(k)));
    let (c, k) = S::enc_det(&ek, m);
    let k2 = S::dec(&dk, &c);
    let k3 = S::dec(&dk, &c);
    t.ops(4 + dw.len() as u64 + ew.len() as u64);
    t.trace();
    t.outcome(&k);
    let what = format!("{}: shared keys differ; seed {} dk steps {dw:?} ek source {src} ek steps {ew:?} m {}", S::P.name(), vlib::brief(seed), vlib::hex(m));
    expect_eq("agreement", &what, &k2, &k)?;
    expect_eq("agreement-again", &format!("{what} (second decapsulation)"), &k3, &k)?;
    let (_, km) = vlib::mlkem::encaps(&S::P, &S::ek_bytes(&ek), m);
    expect_eq("agreement-model", &format!("{what} (against the model)"), &k, &km)?;
    t.sample(|| format!("{} dk steps {dw:?} ek source {src} steps {ew:?} -> both hold {}", S::P.name(), vlib::hex(&k)));
    Ok(())
}

fn agree<S: Scheme>(seed: &[u8; 64], m: &[u8; 32], t: &mut Tally) -> Outcome {
    let (dk, ek) = S::gen_det(seed[..32].try_into().unwrap(), seed[32..].try_into().unwrap());
    let (c, k) = S::enc_det(&ek, m);
    let k2 = S::dec(&dk, &c);
    t.ops(3);
    t.trace();
    t.outcome(&k);
    if k != k2 {
        return fail("agreement", format!("{}: seed {} m {}: sender {} receiver {}", S::P.name(), vlib::hex(seed), vlib::hex(m), vlib::hex(&k), vlib::hex(&k2)));
    }
    Ok(())
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    let (nd, ne) = run.pick((words(2), words(1)), (words(3), words(2)));
    let msgs = run.pick(2u64, 4);
    run.explore(
        "key provenance",
        "3 sets x words of {clone and drop the original, move to the heap, serialise and parse, move on reallocation} applied to the decapsulation key x 4 sources of the encapsulation key x words applied to it x messages",
        3 * nd * 4 * ne * msgs,
        |i, t| {
            let (s, i) = (i % 3, i / 3);
            let (dw, i) = (word(i % nd), i / nd);
            let (src, i) = (i % 4, i / 4);
            let (ew, i) = (word(i % ne), i / ne);
            let seed: [u8; 64] = stream(&format!("C03 key {}", i % 2));
            let m = [[0u8; 32], [0xff; 32], stream("C03 m"), [0x55; 32]][i as usize];
            with_scheme!(s, S => provenance::<S>(&seed, &dw, src, &ew, &m, t))
        },
    );
    let bg: [u8; 32] = stream("C03 background");
    let fixed: [u8; 64] = stream("C03 fixed key");
    run.explore(
        "message alphabet",
        "3 sets x (256 fills, every value at every byte over zero and dense backgrounds) of m, one key",
        3 * b32_len(true),
        |i, t| with_scheme!(i % 3, S => agree::<S>(&fixed, &b32(i / 3, &bg), t)),
    );
    run.explore(
        "seed alphabet",
        "3 sets x (256 fills, every value at every byte over zero) of both key generation seeds, m dense",
        3 * b32_len(false) * 2,
        |i, t| {
            let j = i / 3;
            let mut seed = fixed;
            let at = if j % 2 == 0 { 0..32 } else { 32..64 };
            seed[at].copy_from_slice(&b32(j / 2, &bg));
            with_scheme!(i % 3, S => agree::<S>(&seed, &stream(&format!("C03 m {j}")), t))
        },
    );
    let dense = run.pick(20_000, 1_000_000);
    run.explore(
        "dense sequence",
        "3 sets x the first N of a fixed SHAKE256-derived sequence of (seeds, message)",
        3 * dense,
        |i, t| {
            let b: [u8; 96] = stream(&format!("C03 dense {}", i / 3));
            with_scheme!(i % 3, S => agree::<S>(b[..64].try_into().unwrap(), b[64..].try_into().unwrap(), t))
        },
    );
    #[cfg(kems_verif)]
    decryption(run);
}

/// With s_j = c X^0 and every other entry zero, message bit i is the rounding of v_i - c u_{j,i}:
/// every triple (c, u, v) is executed.
#[cfg(kems_verif)]
fn decryption(run: &mut Run) {
    use ml_kem::verif::hooks;
    for (si, p) in [mlkem::P512, mlkem::P768, mlkem::P1024].into_iter().enumerate() {
        let per_c = (1u64 << (p.du + p.dv)) / 256;
        // all c for the first polynomial of the vector; boundary c for the others
        let cs: Vec<(usize, u16)> = {
            let mut v: Vec<(usize, u16)> = vec![];
            let step = 1;
            let _ = si;
            let edge = [0u16, 1, 2, 832, 833, 1664, 1665, 2496, 2497, 3327, 3328];
            v.extend((0..3329u16).filter(|c| edge.contains(c) || *c as usize % step == 0).map(|c| (0, c)));
            for j in 1..p.k {
                v.extend(edge.iter().map(|&c| (j, c)));
            }
            v
        };
        let (cs, pp) = (&cs, &p);
        run.explore(
            &format!("decryption triples {}", p.name()),
            "s_j = c (a constant polynomial; every c for the first entry of the secret vector, boundary c for the others) x every compressed u value x every compressed v value: each message bit against the model",
            cs.len() as u64 * per_c,
            |i, t| {
                let p = pp;
                let (j, c) = cs[(i / per_c) as usize];
                let blk = (i % per_c) as usize;
                let mut dk = vec![0u8; 384 * p.k];
                let mut s: Poly = [0; 256];
                s[0] = c;
                let sh = mlkem::byte_encode(12, &mlkem::ntt(&s));
                dk[384 * j..384 * (j + 1)].copy_from_slice(&sh);
                let u: Poly = core::array::from_fn(|x| ((blk * 256 + x) % (1 << p.du)) as u16);
                let v: Poly = core::array::from_fn(|x| ((blk * 256 + x) >> p.du) as u16);
                let mut ct = vec![];
                for q in 0..p.k {
                    ct.extend(mlkem::byte_encode(p.du, &if q == j { u } else { [0; 256] }));
                }
                ct.extend(mlkem::byte_encode(p.dv, &v));
                let got = hooks::pke_decrypt(p.k, &dk, &ct);
                let mut want = [0u8; 32];
                for x in 0..256 {
                    let us = c as u32 * mlkem::decompress1(p.du, u[x]) as u32 % mlkem::Q;
                    let w = (mlkem::decompress1(p.dv, v[x]) as u32 + mlkem::Q - us) % mlkem::Q;
                    want[x / 8] |= (mlkem::compress1(1, w as u16) as u8) << (x % 8);
                }
                t.ops(1);
                t.trace();
                t.outcome(&got);
                t.states += 256;
                expect_eq("decrypt", &format!("{}: decryption with s_{j} = {c}, u block {blk}", p.name()), &got, &want)
            },
        );
    }
}
