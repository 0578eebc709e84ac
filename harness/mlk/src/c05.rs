//! C05: layout, sizes and round trips of ML-KEM keys.
use crate::c02::ek_of;
use crate::scheme::*;
use vlib::ensure;
use vlib::engine::{expect_eq, Outcome, Run, Tally};
use vlib::mlkem;
use vlib::rng::stream;

/// Parse and serialise; then once more.
fn ek_case<S: Scheme>(raw: &[u8], want: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let ek = S::ek_parse(raw);
    let b = S::ek_bytes(&ek);
    t.ops(4);
    t.trace();
    if b != want {
        expect_eq("ek-bytes", &format!("{}: encapsulation key, {}", S::P.name(), what()), &b, want)?;
    }
    ensure!(S::ek_bytes(&S::ek_parse(&b)) == b, "ek-idempotent", "{}: serialising the reduced key again changes it, {}", S::P.name(), what());
    let reduced = raw == want;
    ensure!((b == raw) == reduced, "ek-modulus-check", "{}: modulus check by comparison is wrong, {}", S::P.name(), what());
    t.sample(|| format!("{} ek {} -> {}", S::P.name(), what(), vlib::brief(&b)));
    Ok(())
}

fn dk_case<S: Scheme>(raw: &[u8], want: &[u8], what: impl Fn() -> String, t: &mut Tally) -> Outcome {
    let dk = S::dk_parse(raw);
    let b = S::dk_bytes(&dk);
    t.ops(4);
    t.trace();
    if b != want {
        expect_eq("dk-bytes", &format!("{}: decapsulation key, {}", S::P.name(), what()), &b, want)?;
    }
    let ek = S::ek_bytes(S::ek_of(&dk));
    expect_eq("dk-ek-bytes", &format!("{}: encapsulation key of the decapsulation key, {}", S::P.name(), what()), &ek, &want[384 * S::P.k..768 * S::P.k + 32])?;
    ensure!(S::dk_bytes(&S::dk_parse(&b)) == b, "dk-idempotent", "{}: serialising the reduced key again changes it, {}", S::P.name(), what());
    t.sample(|| format!("{} dk {} -> {}", S::P.name(), what(), vlib::brief(&b)));
    Ok(())
}

/// Canonical form of `base` (already canonical) after one byte changed: only the 3-byte group of
/// that byte is affected, and only inside vectors (`vec` says where they are).
fn patch(base: &[u8], pos: usize, val: u8, vec: impl Fn(usize) -> Option<usize>) -> (Vec<u8>, Vec<u8>) {
    let mut raw = base.to_vec();
    raw[pos] = val;
    let mut want = raw.clone();
    if let Some(start) = vec(pos) {
        let g = start + (pos - start) / 3 * 3;
        let x = raw[g] as u32 | (raw[g + 1] as u32) << 8 | (raw[g + 2] as u32) << 16;
        let (a, b) = ((x & 0xfff) % mlkem::Q, (x >> 12) % mlkem::Q);
        let y = a | b << 12;
        want[g..g + 3].copy_from_slice(&[y as u8, (y >> 8) as u8, (y >> 16) as u8]);
    }
    (raw, want)
}

pub fn run(run: &mut Run) {
    crate::validate_model(run);
    run.explore("sizes", "every size the API publishes for the 3 sets", 3, |i, t| {
        t.ops(1);
        with_scheme!(i, S => {
            let (p, got) = (S::P, S::sizes());
            let want = (p.ek_len(), p.dk_len(), p.ct_len(), 32);
            let fips = [(800, 1632, 768, 32), (1184, 2400, 1088, 32), (1568, 3168, 1568, 32)][i as usize];
            ensure!(want == fips && got == fips, "size", "{}: sizes {got:?}, FIPS 203 {fips:?}", p.name());
            let (dk, ek) = S::gen_det(&[1; 32], &[2; 32]);
            let (c, _) = S::enc_det(&ek, &[3; 32]);
            let real = (S::ek_bytes(&ek).len(), S::dk_bytes(&dk).len(), c.len(), 32);
            ensure!(real == fips, "size", "{}: actual sizes {real:?}", p.name());
            Ok(())
        })
    });
    let bg: [u8; 32] = stream("C05 rho");
    let dks = [mlkem::keygen(&mlkem::P512, &bg, &bg).1, mlkem::keygen(&mlkem::P768, &bg, &bg).1, mlkem::keygen(&mlkem::P1024, &bg, &bg).1];
    let dks = &dks;
    run.explore(
        "every byte of a decapsulation key",
        "3 sets x every byte position of a generated decapsulation key x all 256 values: parse, serialise, extract the encapsulation key, repeat",
        (1632 + 2400 + 3168) * 256,
        |i, t| {
            let (v, pos) = (i as u8, (i / 256) as usize);
            let (s, pos) = if pos < 1632 { (0, pos) } else if pos < 4032 { (1, pos - 1632) } else { (2, pos - 4032) };
            with_scheme!(s, S => {
                let n = 384 * S::P.k;
                let (raw, want) = patch(&dks[s], pos, v, |x| (x < 2 * n).then_some(0));
                dk_case::<S>(&raw, &want, || format!("byte {pos} = {v:#04x}"), t)
            })
        },
    );
    run.explore(
        "every byte of an encapsulation key",
        "3 sets x every byte position of a generated encapsulation key x all 256 values",
        (800 + 1184 + 1568) * 256,
        |i, t| {
            let (v, pos) = (i as u8, (i / 256) as usize);
            let (s, pos) = if pos < 800 { (0, pos) } else if pos < 1984 { (1, pos - 800) } else { (2, pos - 1984) };
            with_scheme!(s, S => {
                let n = 384 * S::P.k;
                let (raw, want) = patch(&dks[s][n..2 * n + 32], pos, v, |x| (x < n).then_some(0));
                ek_case::<S>(&raw, &want, || format!("byte {pos} = {v:#04x}"), t)
            })
        },
    );
    run.explore(
        "coefficient diagonal",
        "3 sets x strides {0, 1, 17, 1665} x 4096 offsets: every 12-bit value at every position of the public and of the secret vector, next to different neighbours",
        3 * 4 * 4096,
        |i, t| {
            let (s, j) = ((i % 3) as usize, i / 3);
            let stride = [0usize, 1, 17, 1665][(j % 4) as usize];
            let off = (j / 4) as usize;
            with_scheme!(s, S => {
                let ek = ek_of::<S>(|p, c| (off + stride * (c + 256 * p)) as u16, &bg);
                let sv = ek_of::<S>(|p, c| (off + 1 + stride * (c + 256 * p)) as u16, &bg);
                ek_case::<S>(&ek, &mlkem::canonical_ek(&S::P, &ek), || format!("diagonal {off} stride {stride}"), t)?;
                let dk = [&sv[..384 * S::P.k], &ek, &bg, &[off as u8; 32]].concat();
                dk_case::<S>(&dk, &mlkem::canonical_dk(&S::P, &dk), || format!("diagonal {off} stride {stride}"), t)
            })
        },
    );
    let edge: Vec<u16> = if run.thorough() { (0..4096).collect() } else { vec![0, 1, 255, 256, 3327, 3328, 3329, 3330, 3583, 3584, 4094, 4095] };
    let (edge, ne) = (&edge, edge.len() as u64);
    run.explore(
        "single coefficient",
        "3 sets x every coefficient of public and secret vector x boundary values (thorough: all 4096) over backgrounds {0, 3329, 4095}",
        3 * 2048 * ne * 3,
        |i, t| {
            let (s, j) = ((i % 3) as usize, i / 3);
            let (pos, j) = ((j % 2048) as usize, j / 2048);
            let (v, back) = (edge[(j % ne) as usize], [0u16, 3329, 4095][(j / ne) as usize]);
            with_scheme!(s, S => {
                let n = 256 * S::P.k;
                if pos >= 2 * n {
                    return Ok(());
                }
                // bytes of the vector with only one group different from a constant background
                let vec = |at: Option<usize>, reduce: bool| -> Vec<u8> {
                    let r = |x: u16| if reduce { x as u32 % mlkem::Q } else { x as u32 };
                    let mut o = Vec::with_capacity(n * 3 / 2);
                    for g in 0..n / 2 {
                        let c = |k: usize| r(if Some(2 * g + k) == at { v } else { back });
                        let y = c(0) | c(1) << 12;
                        o.extend([y as u8, (y >> 8) as u8, (y >> 16) as u8]);
                    }
                    o
                };
                let (ps, pe) = if pos < n { (Some(pos), None) } else { (None, Some(pos - n)) };
                let raw = [&vec(ps, false)[..], &vec(pe, false), &bg, &bg, &[9; 32]].concat();
                let want = [&vec(ps, true)[..], &vec(pe, true), &bg, &bg, &[9; 32]].concat();
                dk_case::<S>(&raw, &want, || format!("coefficient {pos} = {v} over {back}"), t)?;
                if pe.is_some() {
                    let m = n * 3 / 2;
                    ek_case::<S>(&raw[m..2 * m + 32], &want[m..2 * m + 32], || format!("coefficient {} = {v} over {back}", pos - n), t)?;
                }
                Ok(())
            })
        },
    );
    run.explore(
        "generated keys",
        "3 sets x 256 generated keys: parse(serialise(k)) serialises to the same bytes, k is unchanged by serialising",
        3 * 256,
        |i, t| {
            let f = [(i / 3) as u8; 32];
            with_scheme!(i % 3, S => {
                let (dk, ek) = S::gen_det(&f, &bg);
                let (d, e) = (S::dk_bytes(&dk), S::ek_bytes(&ek));
                ensure!(S::dk_bytes(&dk) == d && S::ek_bytes(&ek) == e, "unstable", "{}: serialising twice differs", S::P.name());
                ek_case::<S>(&e, &e, || "generated".into(), t)?;
                dk_case::<S>(&d, &d, || "generated".into(), t)
            })
        },
    );
}
