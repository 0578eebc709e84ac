//! C08 and C09: the two samplers.
use crate::ring::public_sequence;
use vlib::engine::Run;

#[cfg(not(kems_verif))]
pub fn uniform(run: &mut Run) {
    crate::validate_model(run);
    public_sequence(run, 8000);
}

#[cfg(not(kems_verif))]
pub fn cbd(run: &mut Run) {
    crate::validate_model(run);
    public_sequence(run, 8000);
}

#[cfg(kems_verif)]
pub use hooked::{cbd, uniform};

#[cfg(kems_verif)]
mod hooked {
    use super::*;
    use ml_kem::verif::hooks;
    use sha3::digest::XofReader;
    use vlib::engine::{fail, Outcome, Tally};
    use vlib::mlkem::{self, Poly};
    use vlib::rng::stream;

    /// A scripted extendable output: `head`, then an accepting filler whose values are distinct
    /// (so that a value taken from the wrong place is seen).
    struct Script<'a> {
        head: &'a [u8],
        at: usize,
        reads: usize,
    }
    /// byte `i` of the filler: candidate n is (n + 1) mod 3329, always accepted
    fn filler(i: usize) -> u8 {
        let g = i / 3;
        let (a, b) = ((2 * g + 1) % 3329, (2 * g + 2) % 3329);
        [a as u8, (a >> 8 | (b & 15) << 4) as u8, (b >> 4) as u8][i % 3]
    }
    impl Script<'_> {
        fn byte(&mut self) -> u8 {
            let i = self.at;
            self.at += 1;
            if i < self.head.len() { self.head[i] } else { filler(i) }
        }
    }
    impl XofReader for Script<'_> {
        fn read(&mut self, buffer: &mut [u8]) {
            self.reads += 1;
            for b in buffer {
                *b = self.byte();
            }
        }
    }

    fn run_stream(head: &[u8], t: &mut Tally, what: impl Fn() -> String) -> Outcome {
        let mut x = Script { head, at: 0, reads: 0 };
        let got = hooks::sample_uniform(&mut x);
        let mut y = Script { head, at: 0, reads: 0 };
        let want = mlkem::sample_ntt(|| [y.byte(), y.byte(), y.byte()]);
        t.ops(1);
        t.trace();
        if got != want {
            let i = (0..256).find(|&i| got[i] != want[i]).unwrap();
            return fail("sample-uniform", format!("{}: sample {i} is {} but should be {}", what(), got[i], want[i]));
        }
        if x.at < y.at {
            return fail("sample-uniform", format!("{}: used only {} bytes of the stream, {} are needed", what(), x.at, y.at));
        }
        Ok(())
    }

    fn triple(a: u16, b: u16) -> [u8; 3] {
        [a as u8, (a >> 8 | (b & 15) << 4) as u8, (b >> 4) as u8]
    }

    pub fn uniform(run: &mut Run) {
        crate::validate_model(run);
        // The model's state is (accepted so far, candidate pairs read so far); the four classes of
        // the next pair are its transitions. Each reachable state with at most T pairs is entered
        // by a real stream, each transition taken with each choice of boundary values.
        let tmax: u64 = run.pick(300, 700);
        let vals: [[u16; 3]; 2] = [[0, 3327, 3328], [3329, 3330, 4095]];
        let shapes = 3u64;
        run.explore(
            "state x next pair",
            "every state (n accepted, t pairs read), t up to 300 (thorough 700), entered by 3 shapes of history (rejections first, last, spread), times the 36 next pairs over {0, 3327, 3328 | 3329, 3330, 4095}, then accepting filler",
            256 * (tmax + 1) * shapes,
            |i, t| {
                let (shape, i) = (i % shapes, i / shapes);
                let (n, reads) = (i % 256, i / 256);
                if n > 2 * reads {
                    return Ok(());
                }
                // 2*reads candidates, n accepted
                let total = 2 * reads;
                let rej = total - n;
                let mut cand: Vec<u16> = Vec::with_capacity(total as usize + 2);
                let mut acc = 0u64;
                for j in 0..total {
                    let r = match shape {
                        0 => j < rej,
                        1 => j >= n,
                        _ => (j + 1) * rej / total > j * rej / total,
                    };
                    cand.push(if r { [4095, 3329, 3500][(j % 3) as usize] } else { acc += 1; ((acc * 13 + reads) % 3329) as u16 });
                }
                debug_assert_eq!(acc, n);
                let mut head: Vec<u8> = cand.chunks(2).flat_map(|c| triple(c[0], c[1])).collect();
                let len = head.len();
                head.extend([0; 3]);
                for x in 0..36usize {
                    let a = vals[x / 18][x / 6 % 3];
                    let b = vals[x / 3 % 2][x % 3];
                    head[len..].copy_from_slice(&triple(a, b));
                    t.states += 1;
                    run_stream(&head, t, || format!("{n} accepted after {reads} pairs (shape {shape}), next pair ({a}, {b})"))?;
                }
                t.sample(|| format!("{n} accepted after {reads} pairs, shape {shape}: 36 next pairs"));
                Ok(())
            },
        );
        run.explore(
            "state x two next pairs",
            "every state (n, t), t up to 160, times the 16 class sequences of the next two pairs",
            256 * 161,
            |i, t| {
                let (n, reads) = (i % 256, i / 256);
                if n > 2 * reads {
                    return Ok(());
                }
                let total = 2 * reads;
                let mut cand: Vec<u16> = (0..total).map(|j| if j < total - n { 4000 } else { ((j * 7 + 5) % 3329) as u16 }).collect();
                for c in 0..16u16 {
                    cand.truncate(total as usize);
                    for b in 0..4 {
                        cand.push(if c >> b & 1 == 1 { 3329 + b * 200 } else { 3328 - b });
                    }
                    let head: Vec<u8> = cand.chunks(2).flat_map(|c| triple(c[0], c[1])).collect();
                    t.states += 1;
                    run_stream(&head, t, || format!("{n} accepted after {reads} pairs, class sequence {c:04b}"))?;
                }
                Ok(())
            },
        );
        run.explore(
            "all byte triples",
            "all 2^24 three-byte groups, 128 per stream",
            1 << 17,
            |i, t| {
                let head: Vec<u8> = (0..128u32).flat_map(|j| {
                    let x = (i as u32) << 7 | j;
                    [x as u8, (x >> 8) as u8, (x >> 16) as u8]
                }).collect();
                t.states += 128;
                run_stream(&head, t, || format!("byte triples {:#x}..", i << 7))
            },
        );
        let longest = run.pick(1500u64, 20_000);
        run.explore(
            "long rejection runs",
            "runs of r rejected candidates, r = 0..1500 (thorough 20000), starting after {0, 1, 31, 63, 64, 127, 128, 200, 254, 255} accepted ones",
            longest * 10,
            |i, t| {
                let (r, start) = ((i / 10) as usize, [0usize, 1, 31, 63, 64, 127, 128, 200, 254, 255][(i % 10) as usize]);
                let mut cand: Vec<u16> = (0..start).map(|j| (j * 3 + 1) as u16).collect();
                cand.extend(std::iter::repeat_n(4095u16, r));
                if cand.len() % 2 == 1 {
                    cand.push(77);
                }
                let head: Vec<u8> = cand.chunks(2).flat_map(|c| triple(c[0], c[1])).collect();
                run_stream(&head, t, || format!("{r} rejections after {start} accepted"))
            },
        );
        let n = run.pick(20_000u64, 500_000);
        run.explore(
            "real XOF streams",
            "SHAKE128 streams of the first N of a fixed sequence of seeds",
            n,
            |i, t| {
                let b: [u8; 2048] = stream(&format!("C08 stream {i}"));
                run_stream(&b, t, || format!("stream {i}"))
            },
        );
        public_sequence(run, 300);
    }

    fn cbd_case(eta: usize, b: &[u8], t: &mut Tally, what: impl Fn() -> String) -> Outcome {
        let got: Poly = if eta == 2 { hooks::sample_cbd2(b.try_into().unwrap()) } else { hooks::sample_cbd3(b.try_into().unwrap()) };
        let want = mlkem::sample_cbd(eta, b);
        t.ops(1);
        t.trace();
        if got != want {
            let i = (0..256).find(|&i| got[i] != want[i]).unwrap();
            return fail(format!("sample-cbd{eta}"), format!("{}: sample {i} is {} but should be {}", what(), got[i], want[i]));
        }
        Ok(())
    }

    pub fn cbd(run: &mut Run) {
        crate::validate_model(run);
        run.explore(
            "every byte",
            "both widths x every position x every value over backgrounds {0, 0xff, 0x5a, counting}",
            (128 + 192) * 256 * 4,
            |i, t| {
                let (v, i) = (i as u8, i / 256);
                let (back, pos) = (i % 4, (i / 4) as usize);
                let (eta, pos) = if pos < 128 { (2, pos) } else { (3, pos - 128) };
                let mut b: Vec<u8> = (0..64 * eta).map(|x| [0, 0xff, 0x5a, (x * 37) as u8][back as usize]).collect();
                b[pos] = v;
                t.sample(|| format!("eta {eta}: byte {pos} = {v:#04x} over background {back}"));
                cbd_case(eta, &b, t, || format!("byte {pos} = {v:#04x} over background {back}"))
            },
        );
        let rots = run.pick(1u64, 64);
        run.explore(
            "all 24-bit groups, eta 3",
            "all 2^24 three-byte groups (four samples each), 64 groups per string (thorough: each group at each of the 64 places)",
            (1 << 18) * rots,
            |i, t| {
                let (blk, rot) = (i >> 0 & 0x3ffff, i >> 18);
                let b: Vec<u8> = (0..64u64).flat_map(|j| {
                    let x = blk << 6 | ((j + rot) & 63);
                    [x as u8, (x >> 8) as u8, (x >> 16) as u8]
                }).collect();
                t.states += 64;
                cbd_case(3, &b, t, || format!("groups {:#x}.. rotation {rot}", blk << 6))
            },
        );
        run.explore(
            "all adjacent byte pairs, eta 2",
            "all 2^16 two-byte groups at each of the 64 even places (by rotation), and shifted by one byte",
            2 * 65536,
            |i, t| {
                let (odd, base) = ((i & 1) as usize, i >> 1);
                let mut b = [0u8; 128];
                for j in 0..64u64 {
                    let x = (base + j * 1021) & 0xffff;
                    b[(2 * j as usize + odd) % 128] = x as u8;
                    b[(2 * j as usize + 1 + odd) % 128] = (x >> 8) as u8;
                }
                t.states += 64;
                cbd_case(2, &b, t, || format!("pairs from {base:#x} odd {odd}"))
            },
        );
        public_sequence(run, 4000);
    }
}
