//! C13: what secrets leave behind.
//!
//! The oracle is noninterference: an object holding a secret, and one with the same public part and
//! another secret, go through the same history and the same end of life; the bytes of the memory
//! each occupied must then be the same.
#[cfg(feature = "dh")]
mod dhs;
mod memory;
#[cfg(feature = "mlkem")]
mod mls;
#[cfg(feature = "xwing")]
mod xws;
use memory::Way;
use vlib::engine::Run;

/// A kind of object with a secret.
pub trait Subject: 'static {
    type T: 'static;
    fn name() -> String;
    /// how many secrets
    fn variants() -> u64;
    fn describe(v: u64) -> String;
    fn make(v: u64) -> Self::T;
    /// same public part as `make(v)`, another secret
    fn reference(v: u64) -> Self::T;
    fn ops() -> Vec<(&'static str, Box<dyn Fn(&Self::T) + Sync>)>;
    fn ways() -> Vec<Way<Self::T>>;
}

pub fn explore<S: Subject>(run: &mut Run) {
    let depth = run.pick(2u32, 3);
    let ops = S::ops();
    let ways = S::ways();
    let n = ops.len() as u64;
    let words: u64 = (0..=depth).map(|d| n.pow(d)).sum();
    let word = |mut i: u64| -> Vec<usize> {
        let mut len = 0;
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        (0..len).map(|p| (i / n.pow(p) % n) as usize).collect()
    };
    let vs = S::variants();
    let (nw, total) = (ways.len() as u64, words * vs * ways.len() as u64);
    let (ops, ways) = (&ops, &ways);
    let wayset = vlib::engine::Solo(ways);
    run.explore(
        &S::name(),
        &format!("{vs} secrets x {words} histories (all words of up to {depth} of {n} operations) x {nw} ends of life: the memory the object occupied does not depend on the secret afterwards"),
        total,
        |i, t| {
            let way = &wayset.get()[(i % nw) as usize];
            let v = i / nw % vs;
            let w = word(i / nw / vs);
            let history = |x: &S::T| {
                for &o in &w {
                    (ops[o].1)(x);
                }
            };
            let a = (way.run)(&|| S::make(v), &history, &|| S::reference(0));
            let b = (way.run)(&|| S::reference(v), &history, &|| S::reference(0));
            t.ops(2 * (w.len() as u64 + 2));
            t.trace();
            t.outcome(&a);
            let what = || format!("{}, {}, after [{}], {}", S::name(), S::describe(v), w.iter().map(|&o| ops[o].0).collect::<Vec<_>>().join(", "), way.name);
            t.sample(|| format!("{}: {} bytes examined", what(), a.len()));
            let left = a.iter().zip(&b).filter(|(x, y)| x != y).count();
            vlib::ensure!(a.len() == b.len(), "size", "{}: sizes {} and {}", what(), a.len(), b.len());
            vlib::ensure!(
                left == 0,
                "secret-survives",
                "{}: {left} of {} bytes still depend on the secret, the first at {:?}",
                what(),
                a.len(),
                a.iter().zip(&b).position(|(x, y)| x != y)
            );
            Ok(())
        },
    );
}

fn main() {
    let mut run = Run::from_args();
    memory::self_check();
    run.note("the observation was first shown to see a type that does not erase itself, in every way of ending");
    #[cfg(feature = "mlkem")]
    mls::run(&mut run);
    #[cfg(feature = "xwing")]
    xws::run(&mut run);
    #[cfg(feature = "dh")]
    dhs::run(&mut run);
    run.finish()
}
