//! Inputs that a careless comparison takes for equal: what `history` checks run one after the other.

#[derive(Clone, Copy, Debug)]
pub enum Near {
    /// one byte differs
    One(usize),
    /// the difference cancels in an exclusive or of bytes
    Xor(usize, usize, u8),
    /// the difference cancels in a sum of bytes
    Sum(usize, usize),
    /// two groups of bytes change places
    Swap(usize, usize, usize),
    /// all bytes in the other order
    Reverse,
    /// only the first so many bytes are kept
    Prefix(usize),
    /// only the last so many bytes are kept
    Suffix(usize),
}

impl Near {
    pub fn apply(self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        match self {
            Near::One(i) => v[i] ^= 1,
            Near::Xor(i, j, x) => {
                v[i] ^= x;
                v[j] ^= x;
            }
            Near::Sum(i, j) => {
                v[i] = v[i].wrapping_add(1);
                v[j] = v[j].wrapping_sub(1);
            }
            Near::Swap(i, j, n) => {
                for k in 0..n {
                    v.swap(i + k, j + k);
                }
            }
            Near::Reverse => v.reverse(),
            Near::Prefix(n) => v[n..].iter_mut().for_each(|x| *x = !*x),
            Near::Suffix(n) => {
                let l = v.len();
                v[..l - n].iter_mut().for_each(|x| *x = !*x);
            }
        }
        v
    }
}

/// All alterations of `n` bytes; with pairs at the given distances only.
pub fn near(n: usize, distance: impl Fn(usize) -> bool, step: usize) -> Vec<Near> {
    let mut v: Vec<Near> = (0..n).map(Near::One).collect();
    for i in 0..n {
        for j in i + 1..n {
            if distance(j - i) && (i % step == 0 || i < 8 || j >= n - 8) {
                v.push(Near::Xor(i, j, 0x01));
                v.push(Near::Xor(i, j, 0x40));
                v.push(Near::Sum(i, j));
                v.push(Near::Swap(i, j, 1));
            }
        }
    }
    for w in [2, 4, 8, 16, 32] {
        for i in (0..n / w * w).step_by(w) {
            for j in (i + w..(n / w) * w).step_by(w) {
                if distance(j - i) && (i / w % step == 0 || j >= n - w) {
                    v.push(Near::Swap(i, j, w));
                }
            }
        }
    }
    v.push(Near::Reverse);
    for k in [1, 2, 4, 8, 16, 24, 28, 31, 32, 48, 64] {
        if k < n {
            v.push(Near::Prefix(k));
            v.push(Near::Suffix(k));
        }
    }
    v
}

/// For long inputs.
pub fn far(d: usize) -> bool {
    d.is_power_of_two() || d % 384 == 0 || d % 320 == 0 || d == 3 || d == 24 || d == 96
}

/// What the model says, computed in parallel in blocks while one thread runs the implementation.
pub struct Ahead<F> {
    f: F,
    n: usize,
    block: std::sync::Mutex<(usize, Vec<Vec<u8>>)>,
}
const BLOCK: usize = 1024;

impl<F: Fn(usize) -> Vec<u8> + Sync> Ahead<F> {
    pub fn new(n: usize, f: F) -> Self {
        Ahead { f, n, block: std::sync::Mutex::new((usize::MAX, vec![])) }
    }
    pub fn get(&self, i: usize) -> Vec<u8> {
        let mut b = self.block.lock().unwrap();
        if b.0 != i / BLOCK {
            let from = i / BLOCK * BLOCK;
            let len = BLOCK.min(self.n - from);
            let mut v = vec![vec![]; len];
            let per = len.div_ceil(8);
            std::thread::scope(|s| {
                for (k, part) in v.chunks_mut(per).enumerate() {
                    s.spawn(move || part.iter_mut().enumerate().for_each(|(j, o)| *o = (self.f)(from + k * per + j)));
                }
            });
            *b = (i / BLOCK, v);
        }
        b.1[i % BLOCK].clone()
    }
}

/// One section: the operations on the base, then on each altered input, then on the base again, in one process.
pub fn explore(
    run: &mut vlib::engine::Run,
    name: &str,
    what: &str,
    base: &[u8],
    list: Vec<Near>,
    model: impl Fn(&[u8]) -> Vec<u8> + Sync,
    implementation: impl Fn(&[u8]) -> Vec<u8> + Sync,
) {
    let want0 = model(base);
    let ahead = Ahead::new(list.len(), |i| model(&list[i].apply(base)));
    let before = std::sync::Mutex::new(None);
    let n = list.len() as u64;
    run.explore_on(
        1,
        name,
        &format!("{what}: on a base input, on one that differs in one byte, in two bytes such that an exclusive or or sum of bytes agrees, in two exchanged bytes or groups, in order, or in all but a prefix or suffix, and on the base again, all in one process"),
        n,
        |i, t| {
            let i = i as usize;
            if *before.lock().unwrap() != Some(i) {
                vlib::engine::expect_eq("history", "the base input", &implementation(base), &want0)?;
            }
            let x = list[i].apply(base);
            let got = implementation(&x);
            vlib::engine::expect_eq("history", &format!("{:?} of the base input, after the base input", list[i]), &got, &ahead.get(i))?;
            vlib::engine::expect_eq("history", &format!("the base input after {:?} of it", list[i]), &implementation(base), &want0)?;
            *before.lock().unwrap() = Some(i + 1);
            t.ops(2);
            t.trace();
            Ok(())
        },
    );
}
