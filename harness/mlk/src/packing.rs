//! C10: compression and bit packing.
use crate::ring::public_sequence;
use vlib::engine::Run;

#[cfg(not(kems_verif))]
pub fn run(run: &mut Run) {
    crate::validate_model(run);
    public_sequence(run, 8000);
}

#[cfg(kems_verif)]
pub fn run(run: &mut Run) {
    crate::validate_model(run);
    hooked::run(run);
    public_sequence(run, 300);
}

#[cfg(kems_verif)]
mod hooked {
    use ml_kem::verif::hooks;
    use vlib::engine::{fail, Outcome, Run, Tally};
    use vlib::mlkem::{self, Poly};

    fn cmp(key: &str, got: &Poly, want: &Poly, what: impl Fn() -> String) -> Outcome {
        if got == want {
            return Ok(());
        }
        let i = (0..256).find(|&i| got[i] != want[i]).unwrap();
        fail(key, format!("{}: coefficient {i}: implementation {} model {}", what(), got[i], want[i]))
    }

    fn packed(d: usize, f: &Poly, t: &mut Tally, what: impl Fn() -> String) -> Outcome {
        let mut out = [0xa5u8; 400];
        let n = hooks::byte_encode(d, f, &mut out);
        let want = mlkem::byte_encode(d, f);
        t.ops(2);
        t.trace();
        if out[..n] != want[..] {
            return fail("encode", format!("d={d} {}: {}", what(), vlib::first_diff(&out[..n], &want)));
        }
        let back = hooks::byte_decode(d, &out[..n]);
        let want = if d == 12 { mlkem::map(f, |x| x % 3329) } else { *f };
        cmp("decode", &back, &want, || format!("d={d} round trip, {}", what()))
    }

    pub fn run(run: &mut Run) {
        run.explore(
            "compression and decompression",
            "every width 1..11 x every value (compression: 0..q-1, decompression: 0..2^d-1) at every position (256 rotations)",
            11 * 256 * 14,
            |i, t| {
                let (d, i) = ((i % 11 + 1) as usize, i / 11);
                let (rot, blk) = ((i % 256) as usize, (i / 256) as usize);
                let f: Poly = core::array::from_fn(|c| ((blk * 256 + (c + rot) % 256) % 3329) as u16);
                cmp("compress", &hooks::compress(d, &f), &mlkem::map(&f, |x| mlkem::compress1(d, x)), || format!("compress d={d} block {blk}"))?;
                let g: Poly = core::array::from_fn(|c| ((blk * 256 + (c + rot) % 256) % (1 << d)) as u16);
                let up = hooks::decompress(d, &g);
                cmp("decompress", &up, &mlkem::map(&g, |x| mlkem::decompress1(d, x)), || format!("decompress d={d} block {blk}"))?;
                cmp("compress-decompress", &hooks::compress(d, &up), &g, || format!("compress after decompress d={d} block {blk}"))?;
                t.states += 512;
                t.ops(3);
                t.trace();
                t.sample(|| format!("d={d}, values {}.. rotated by {rot}", blk * 256));
                Ok(())
            },
        );
        for d in 1..=12usize {
            let n = 1u64 << d;
            run.explore(
                &format!("packing, d = {d}"),
                "every d-bit value at every position over backgrounds {0, all ones, counting}: packing against the standard's bit order, and unpacking gives it back (reduced modulo q for d = 12)",
                256 * n * 3,
                |i, t| {
                    let (back, i) = (i % 3, i / 3);
                    let (pos, v) = ((i % 256) as usize, (i / 256) as u16);
                    let m = (n - 1) as u16;
                    let mut f: Poly = core::array::from_fn(|c| [0, m, (c * 2741 + 17) as u16 & m][back as usize]);
                    f[pos] = v;
                    packed(d, &f, t, || format!("value {v} at {pos} over background {back}"))
                },
            );
        }
        run.explore(
            "neighbouring values",
            "every width x all 4^8 contents of eight neighbouring coefficients over {0, max, 0101.., 1010..}, 32 such groups per polynomial",
            12 * 65536 / 32,
            |i, t| {
                let (d, blk) = ((i % 12 + 1) as usize, i / 12);
                let m = ((1u32 << d) - 1) as u16;
                let f: Poly = core::array::from_fn(|c| {
                    let pat = blk * 32 + c as u64 / 8;
                    [0, m, 0x5555 & m, 0xaaaa & m][(pat >> (2 * (c % 8)) & 3) as usize]
                });
                t.states += 32;
                packed(d, &f, t, || format!("patterns {}..", blk * 32))
            },
        );
        run.explore(
            "unpacking arbitrary bytes",
            "every width x every byte position x every byte value over backgrounds {0, 0xff, 0x6b}",
            12 * 384 * 256 * 3,
            |i, t| {
                let (v, i) = (i as u8, i / 256);
                let (d, i) = ((i % 12 + 1) as usize, i / 12);
                let (back, pos) = ([0u8, 0xff, 0x6b][(i % 3) as usize], (i / 3) as usize);
                if pos >= 32 * d {
                    return Ok(());
                }
                let mut b = vec![back; 32 * d];
                b[pos] = v;
                t.ops(1);
                t.trace();
                cmp("decode", &hooks::byte_decode(d, &b), &mlkem::byte_decode(d, &b), || format!("unpack d={d} byte {pos} = {v:#04x}"))
            },
        );
    }
}
