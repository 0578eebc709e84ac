//! C07: ring arithmetic, through the hooks on the real functions.
use crate::scheme::*;
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::mlkem;
use vlib::rng::stream;

/// What remains decidable when the hooks do not fit the tree: whole operations against the model.
pub fn public_sequence(run: &mut Run, n: u64) {
    run.explore(
        "whole operations",
        "3 sets x the first N of a fixed sequence of seeds and messages: key generation, encapsulation and decapsulation (honest and altered) against the model",
        3 * n,
        |i, t| {
            let b: [u8; 96] = stream(&format!("public sequence {}", i / 3));
            with_scheme!(i % 3, S => whole::<S>(&b, t))
        },
    );
}

fn whole<S: Scheme>(b: &[u8; 96], t: &mut Tally) -> Outcome {
    let (d, z, m): (&[u8; 32], &[u8; 32], &[u8; 32]) = (b[..32].try_into().unwrap(), b[32..64].try_into().unwrap(), b[64..].try_into().unwrap());
    let (ek_m, dk_m) = mlkem::keygen(&S::P, d, z);
    let (dk, ek) = S::gen_det(d, z);
    expect_eq("keygen", "decapsulation key", &S::dk_bytes(&dk), &dk_m)?;
    let (c, k) = S::enc_det(&ek, m);
    let (c_m, k_m) = mlkem::encaps(&S::P, &ek_m, m);
    expect_eq("encaps", "ciphertext", &c, &c_m)?;
    expect_eq("encaps", "shared key", &k, &k_m)?;
    expect_eq("decaps", "decapsulated key", &S::dec(&dk, &c), &k_m)?;
    let mut bad = c;
    let at = m[0] as usize * 3;
    bad[at] ^= 0x10;
    expect_eq("decaps", "rejection key", &S::dec(&dk, &bad), &mlkem::decaps(&S::P, &dk_m, &bad))?;
    t.ops(4);
    t.trace();
    t.outcome(&k);
    Ok(())
}

#[cfg(not(kems_verif))]
pub fn run(run: &mut Run) {
    crate::validate_model(run);
    public_sequence(run, 8000);
}

#[cfg(kems_verif)]
pub fn run(run: &mut Run) {
    crate::validate_model(run);
    hooked::run(run);
    public_sequence(run, 500);
}

#[cfg(kems_verif)]
mod hooked {
    use ml_kem::verif::hooks;
    use vlib::engine::{fail, Outcome, Run, Tally};
    use vlib::mlkem::{self, Poly, Q};
    use vlib::rng::stream;

    const Q64: u64 = Q as u64;

    fn cmp(key: &str, got: &Poly, want: &Poly, what: impl Fn() -> String) -> Outcome {
        if got == want {
            return Ok(());
        }
        let i = (0..256).find(|&i| got[i] != want[i]).unwrap();
        fail(key, format!("{}: coefficient {i}: implementation {} model {}", what(), got[i], want[i]))
    }

    /// The n-th pair (a, b) of reduced values.
    fn pair(n: u64) -> (u16, u16) {
        let n = n % (Q64 * Q64);
        ((n / Q64) as u16, (n % Q64) as u16)
    }

    pub fn run(run: &mut Run) {
        run.explore("coefficient operations", "all 3329^2 pairs through addition, subtraction and multiplication", Q64, |x, t| {
            let x = x as u32;
            for y in 0..Q {
                let want = [(x + y) % Q, (x + Q - y) % Q, x * y % Q];
                let (a, b) = (x as u16, y as u16);
                let got = [hooks::fe_add(a, b), hooks::fe_sub(a, b), hooks::fe_mul(a, b)];
                for (k, name) in ["add", "sub", "mul"].iter().enumerate() {
                    if got[k] as u32 != want[k] {
                        return fail(*name, format!("{name}({x}, {y}) = {} but should be {}", got[k], want[k]));
                    }
                }
            }
            t.states += Q64;
            t.ops(3 * Q64);
            t.trace();
            t.sample(|| format!("{x} with every y: sums, differences, products"));
            Ok(())
        });

        // every pair at a position; thorough: at every position
        let rots = run.pick(4u64, 256);
        let per = (Q64 * Q64).div_ceil(256);
        run.explore(
            "polynomial addition and subtraction",
            "all pairs of coefficients, 256 at a time, under 4 (thorough: all 256) rotations of the positions; both domains",
            rots * per.div_ceil(64),
            |i, t| {
                let rot = (i % rots) * (256 / rots);
                for blk in (i / rots * 64)..((i / rots + 1) * 64).min(per) {
                    let p = |c: usize| pair(blk * 256 + (c as u64 + rot) % 256);
                    let f: Poly = core::array::from_fn(|c| p(c).0);
                    let g: Poly = core::array::from_fn(|c| p(c).1);
                    let (s, d) = (mlkem::add(&f, &g), mlkem::sub(&f, &g));
                    cmp("poly-add", &hooks::poly_add(&f, &g), &s, || format!("sum, block {blk} rotation {rot}"))?;
                    cmp("poly-sub", &hooks::poly_sub(&f, &g), &d, || format!("difference, block {blk} rotation {rot}"))?;
                    cmp("ntt-add", &hooks::ntt_add(&f, &g), &s, || format!("NTT-domain sum, block {blk} rotation {rot}"))?;
                    t.states += 256;
                    t.ops(3);
                    t.trace();
                }
                Ok(())
            },
        );

        butterflies(run);
        basis(run);
        products(run);
        dots(run);
        laws(run);
    }

    /// Every butterfly function of every layer on every pair of inputs: the layer's input is chosen
    /// and pulled back through the earlier layers by the model's exact inverse.
    fn butterflies(run: &mut Run) {
        const CH: u64 = 64;
        for inverse in [false, true] {
            for layer in 0..7usize {
                let len = if inverse { 2usize << layer } else { 128 >> layer };
                // quick: every pair with every zeta; thorough: every pair at every butterfly
                let polys = if run.thorough() { Q64 * Q64 } else { (Q64 * Q64).div_ceil(len as u64) };
                let name = format!("{} layer {layer}", if inverse { "inverse transform" } else { "transform" });
                run.explore(
                    &name,
                    "all 3329^2 input pairs of the layer's butterflies, with every twiddle factor of the layer (thorough: at every butterfly position); the polynomial entering the layer is pulled back to an input by the model's inverse layers",
                    polys.div_ceil(CH),
                    |i, t| {
                        for n in (i * CH)..((i + 1) * CH).min(polys) {
                            let mut h: Poly = [0; 256];
                            let groups = 128 / len;
                            for g in 0..groups {
                                for j in 0..len {
                                    let idx = if polys == Q64 * Q64 { n + (g * len + j) as u64 * 1031 } else { n * len as u64 + j as u64 + g as u64 * 86_600 };
                                    let (a, b) = pair(idx);
                                    h[2 * len * g + j] = a;
                                    h[2 * len * g + j + len] = b;
                                }
                            }
                            let mut f = h;
                            let mut want = h;
                            let got = if inverse {
                                mlkem::intt_unlayers(&mut f, 0, layer);
                                mlkem::intt_layers(&mut want, layer, 7);
                                want = mlkem::scale(&want, 3303);
                                hooks::ntt_inverse(&f)
                            } else {
                                mlkem::ntt_unlayers(&mut f, 0, layer);
                                mlkem::ntt_layers(&mut want, layer, 7);
                                hooks::ntt(&f)
                            };
                            t.states += 128;
                            t.ops(1);
                            t.trace();
                            if got != want {
                                cmp(if inverse { "ntt-inverse" } else { "ntt" }, &got, &want, || format!("{name}, polynomial {n}, input {:?}..", &f[..8]))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }

    fn basis(run: &mut Run) {
        run.explore(
            "transform of scaled monomials",
            "c X^i for every i and every c in 0..q: transform against its definition, and back",
            256 * Q64.div_ceil(32),
            |i, t| {
                let pos = (i % 256) as usize;
                let mut unit: Poly = [0; 256];
                unit[pos] = 1;
                let u = mlkem::ntt_by_definition(&unit);
                for c in (i / 256 * 32)..((i / 256 + 1) * 32).min(Q64) {
                    let mut f: Poly = [0; 256];
                    f[pos] = c as u16;
                    let want = mlkem::scale(&u, c as u32);
                    let got = hooks::ntt(&f);
                    cmp("ntt", &got, &want, || format!("transform of {c} X^{pos}"))?;
                    cmp("ntt-inverse", &hooks::ntt_inverse(&want), &f, || format!("inverse transform of that of {c} X^{pos}"))?;
                    t.states += 1;
                    t.ops(2);
                    t.trace();
                }
                Ok(())
            },
        );
    }

    /// Products of transformed polynomials.
    fn products(run: &mut Run) {
        let pairs = Q64 * Q64;
        let fixed: &[(u16, u16)] = if run.thorough() { &[(3328, 3328), (0, 0), (1, 3328), (3328, 1), (1664, 1665), (2, 3327)] } else { &[(3328, 3328), (1, 0)] };
        const CH: u64 = 512;
        run.explore(
            "base products",
            "for every quadratic factor: all pairs (a0, b0) with (a1, b1) fixed to boundary pairs, and all pairs (a1, b1) with (a0, b0) fixed",
            fixed.len() as u64 * 2 * pairs.div_ceil(CH),
            |i, t| {
                let nf = fixed.len() as u64;
                let (x, y) = fixed[(i % nf) as usize];
                let second = i / nf % 2 == 1;
                let blk = i / nf / 2;
                for n in (blk * CH)..((blk + 1) * CH).min(pairs) {
                    let (mut f, mut g): (Poly, Poly) = ([0; 256], [0; 256]);
                    for c in 0..128 {
                        let (a, b) = pair(n + c as u64 * 86_609);
                        let (lo, hi) = if second { ((x, y), (a, b)) } else { ((a, b), (x, y)) };
                        (f[2 * c], g[2 * c]) = lo;
                        (f[2 * c + 1], g[2 * c + 1]) = hi;
                    }
                    let (got, want) = (hooks::ntt_mul(&f, &g), mlkem::ntt_mul(&f, &g));
                    t.states += 128;
                    t.ops(1);
                    t.trace();
                    if got != want {
                        cmp("ntt-mul", &got, &want, || format!("product, fixed ({x}, {y}) second={second} block {n}"))?;
                    }
                }
                Ok(())
            },
        );
        // every reachable value of a0 b1 + a1 b0 (before reduction), through factorisations
        let top = 2 * 3328u64 * 3328;
        let mut factor = vec![0u16; (3328 * 3328 + 1) as usize];
        for a in (1..=3328u64).rev() {
            for b in a..=3328 {
                factor[(a * b) as usize] = a as u16;
            }
        }
        let factor = &factor;
        let split = |n: u64| -> Option<(u16, u16, u16, u16)> {
            // n = a0 * b1 + a1 * b0 with a0 = 3328 where possible
            let hi = (n / 3328).min(3328);
            let lo = n.saturating_sub(3328 * 3328).div_ceil(3328);
            (lo..=hi).rev().find_map(|b1| {
                let r = n - 3328 * b1;
                if r == 0 {
                    Some((3328, b1 as u16, 0, 0))
                } else if r <= 3328 * 3328 && factor[r as usize] != 0 {
                    let a = factor[r as usize] as u64;
                    Some((3328, b1 as u16, a as u16, (r / a) as u16))
                } else {
                    None
                }
            })
        };
        run.explore(
            "cross sums",
            "every value n of a0*b1 + a1*b0 in 0..2*3328^2 that has a representation with a0 = 3328, reduced by the implementation",
            top / 128 / 64 + 1,
            |i, t| {
                for blk in i * 64..(i + 1) * 64 {
                    let (mut f, mut g): (Poly, Poly) = ([0; 256], [0; 256]);
                    let mut some = 0;
                    for c in 0..128u64 {
                        let n = blk * 128 + c;
                        if n > top {
                            break;
                        }
                        if let Some((a0, b1, a1, b0)) = split(n) {
                            let c = c as usize;
                            (f[2 * c], f[2 * c + 1], g[2 * c], g[2 * c + 1]) = (a0, a1, b0, b1);
                            some += 1;
                        }
                    }
                    t.states += some;
                    t.ops(1);
                    t.trace();
                    let (got, want) = (hooks::ntt_mul(&f, &g), mlkem::ntt_mul(&f, &g));
                    if got != want {
                        cmp("ntt-mul", &got, &want, || format!("cross sums {}..", blk * 128))?;
                    }
                }
                Ok(())
            },
        );
    }

    fn dots(run: &mut Run) {
        // all-extreme patterns: each of the 4k inputs of a base product is 0 or q-1 (k <= 3), and
        // for k = 4 all 2^16; every quadratic factor sees every pattern through rotation
        for k in 1..=4usize {
            let pats = 1u64 << (4 * k);
            let rots = run.pick(if k == 4 { 8u64 } else { 128 }, 128);
            let blocks = pats.div_ceil(128);
            run.explore(
                &format!("dot products, k = {k}"),
                "all patterns of {0, q-1} (and of {1, q-2}) over the 4k inputs of each base product, under rotations of the quadratic factors",
                blocks * rots * 2,
                |i, t| {
                    let (lo, hi) = if i % 2 == 0 { (0u16, 3328u16) } else { (1, 3327) };
                    let rot = i / 2 % rots * (128 / rots);
                    let blk = i / 2 / rots;
                    let mut f = vec![[0u16; 256]; k];
                    let mut g = vec![[0u16; 256]; k];
                    for c in 0..128u64 {
                        let pat = (blk * 128 + (c + rot) % 128) % pats;
                        for p in 0..k {
                            let bit = |b: usize| if pat >> (4 * p + b) & 1 == 1 { hi } else { lo };
                            let c = c as usize;
                            (f[p][2 * c], f[p][2 * c + 1], g[p][2 * c], g[p][2 * c + 1]) = (bit(0), bit(1), bit(2), bit(3));
                        }
                    }
                    check_dot(&f, &g, t, || format!("dot product k={k} block {blk} rotation {rot}"))
                },
            );
        }
        let dense = run.pick(20_000u64, 2_000_000);
        run.explore("dot products, dense", "k = 1..4, the first N polynomials of a fixed arithmetic sequence", dense, |i, t| {
            let k = (i % 4 + 1) as usize;
            let v = |s: u64| -> Vec<Poly> {
                (0..k as u64).map(|p| core::array::from_fn(|c| ((i * 7919 + s * 104_729 + p * 1_299_709 + (c as u64 + 1) * (c as u64 + 3) * (s + 2) * 31) % Q64) as u16)).collect()
            };
            check_dot(&v(1), &v(2), t, || format!("dense dot product {i}"))
        });
    }

    fn check_dot(f: &[Poly], g: &[Poly], t: &mut Tally, what: impl Fn() -> String) -> Outcome {
        let mut want: Poly = [0; 256];
        for (a, b) in f.iter().zip(g) {
            want = mlkem::add(&want, &mlkem::ntt_mul(a, b));
        }
        let got = hooks::ntt_dot(f, g);
        t.ops(1);
        t.trace();
        t.states += 128;
        cmp("dot", &got, &want, what)
    }

    fn laws(run: &mut Run) {
        run.explore(
            "products of monomials",
            "X^i * c X^j for all i, j through transform, product and inverse: X^256 = -1",
            65536,
            |n, t| {
                let (i, j) = ((n / 256) as usize, (n % 256) as usize);
                let c = (n * 2654435761 % (Q64 - 1) + 1) as u16;
                let (mut f, mut g, mut want): (Poly, Poly, Poly) = ([0; 256], [0; 256], [0; 256]);
                f[i] = 1;
                g[j] = c;
                want[(i + j) % 256] = if i + j < 256 { c } else { Q as u16 - c };
                let got = hooks::ntt_inverse(&hooks::ntt_mul(&hooks::ntt(&f), &hooks::ntt(&g)));
                t.ops(4);
                t.trace();
                cmp("ring-product", &got, &want, || format!("X^{i} * {c} X^{j}"))
            },
        );
        let dense = run.pick(3000u64, 100_000);
        run.explore(
            "products of dense polynomials",
            "the first N pairs of a fixed sequence, against the schoolbook product in Z_q[X]/(X^256+1)",
            dense,
            |n, t| {
                let b: [u8; 1024] = stream(&format!("C07 dense {n}"));
                let v = |o: usize| -> Poly { core::array::from_fn(|i| (u16::from_le_bytes([b[o + 2 * i], b[o + 2 * i + 1]]) as u32 % Q) as u16) };
                let (f, g) = (v(0), v(512));
                let got = hooks::ntt_inverse(&hooks::ntt_mul(&hooks::ntt(&f), &hooks::ntt(&g)));
                t.ops(4);
                t.trace();
                t.outcome(&got[0].to_le_bytes());
                cmp("ring-product", &got, &mlkem::ring_mul(&f, &g), || format!("dense product {n}"))
            },
        );
    }
}
