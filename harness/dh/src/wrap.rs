//! C20: the wrappers behave as the values they wrap. Decided for small wrapped domains completely:
//! every pair of values, every operation, and spies that record what is asked of them.
use dhkem::{DhDecapsulator, DhEncapsulator};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use vlib::ensure;
use vlib::engine::{fail, Outcome, Run, Tally};

/// Records everything that is hashed.
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        vlib::engine::hash64(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend(b);
    }
}
fn hashed<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Recorder::default();
    x.hash(&mut r);
    r.0
}

thread_local! {
    static LOG: RefCell<Vec<(&'static str, u8)>> = const { RefCell::new(vec![]) };
}
fn log(what: &'static str, x: u8) {
    LOG.with(|l| l.borrow_mut().push((what, x)));
}
fn take_log() -> Vec<(&'static str, u8)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Unconventional but lawful: equality modulo 4, reverse order, hash of the residue.
#[derive(Debug)]
struct Spy(u8);
impl Clone for Spy {
    fn clone(&self) -> Self {
        log("clone", self.0);
        Spy(self.0)
    }
}
impl PartialEq for Spy {
    fn eq(&self, o: &Self) -> bool {
        self.0 % 4 == o.0 % 4
    }
}
impl Eq for Spy {}
impl PartialOrd for Spy {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Spy {
    fn cmp(&self, o: &Self) -> Ordering {
        (o.0 % 4).cmp(&(self.0 % 4))
    }
}
impl Hash for Spy {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(&[0xaa, self.0 % 4]);
        h.write_u16(7);
    }
}
impl Default for Spy {
    fn default() -> Self {
        log("default", 0);
        Spy(42)
    }
}
impl Drop for Spy {
    fn drop(&mut self) {
        log("drop", self.0);
    }
}
#[cfg(feature = "zeroize")]
impl zeroize::Zeroize for Spy {
    fn zeroize(&mut self) {
        log("zeroize", self.0);
        self.0 = 0;
    }
}

/// Equality that is not reflexive, order that is partial.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Default)]
struct Partial(f32);

trait Wrapper<X>: From<X> + AsRef<X> {
    const NAME: &'static str;
    fn unwrap(self) -> X;
}
impl<X> Wrapper<X> for DhEncapsulator<X> {
    const NAME: &'static str = "encapsulator";
    fn unwrap(self) -> X {
        self.into_inner()
    }
}
impl<X> Wrapper<X> for DhDecapsulator<X> {
    const NAME: &'static str = "decapsulator";
    fn unwrap(self) -> X {
        self.into_inner()
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: impl Fn() -> String, key: &str, got: T, want: T) -> Outcome {
    if got == want {
        Ok(())
    } else {
        fail(key, format!("{}: wrapper {got:?}, wrapped value {want:?}", what()))
    }
}

/// conversions
fn convert<X: Clone, W: Wrapper<X>>(x: &X, eq: impl Fn(&X, &X) -> bool, what: &dyn Fn() -> String, t: &mut Tally) -> Outcome {
    t.ops(4);
    t.trace();
    let w = W::from(x.clone());
    ensure!(eq(w.as_ref(), x), "as-ref", "{} {}: unwrapping by reference gives another value", W::NAME, what());
    ensure!(eq(w.as_ref(), x), "as-ref", "{} {}: unwrapping by reference twice gives another value", W::NAME, what());
    ensure!(eq(&w.unwrap(), x), "into-inner", "{} {}: unwrapping by value gives another value", W::NAME, what());
    Ok(())
}

/// equality and partial order
fn partial<X: Clone + PartialOrd, W: Wrapper<X> + PartialOrd>(a: &X, b: &X, what: &dyn Fn() -> String, t: &mut Tally) -> Outcome {
    t.ops(7);
    t.trace();
    let (x, y) = (W::from(a.clone()), W::from(b.clone()));
    let s = |o: &str| format!("{} {}, {o}", W::NAME, what());
    same(|| s("=="), "eq", x == y, a == b)?;
    same(|| s("!="), "eq", x != y, a != b)?;
    same(|| s("partial_cmp"), "order", x.partial_cmp(&y), a.partial_cmp(b))?;
    same(|| s("<"), "order", x < y, a < b)?;
    same(|| s("<="), "order", x <= y, a <= b)?;
    same(|| s(">"), "order", x > y, a > b)?;
    same(|| s(">="), "order", x >= y, a >= b)
}

/// total order, hash, clone, default
fn total<X: Clone + Ord + Hash + Default, W: Wrapper<X> + Ord + Hash + Clone + Default>(a: &X, b: &X, what: &dyn Fn() -> String, t: &mut Tally) -> Outcome {
    t.ops(7);
    t.trace();
    let (x, y) = (W::from(a.clone()), W::from(b.clone()));
    let s = |o: &str| format!("{} {}, {o}", W::NAME, what());
    same(|| s("cmp"), "order", x.cmp(&y), a.cmp(b))?;
    same(|| s("hash"), "hash", hashed(&x), hashed(a))?;
    same(|| s("hash"), "hash", hashed(&y), hashed(b))?;
    ensure!(x.clone().as_ref() == a, "clone", "{}", s("clone"));
    ensure!(std::cmp::max(x.clone(), y.clone()).as_ref() == std::cmp::max(a, b), "order", "{}", s("max"));
    ensure!(std::cmp::min(x, y).as_ref() == std::cmp::min(a, b), "order", "{}", s("min"));
    ensure!(*W::default().as_ref() == X::default(), "default", "{}", s("default"));
    Ok(())
}

fn everything<X: Clone + Ord + Hash + Default + std::fmt::Debug>(a: &X, b: &X, t: &mut Tally) -> Outcome {
    let what = || format!("of {a:?} and {b:?}");
    convert::<X, DhEncapsulator<X>>(a, |x, y| x == y, &what, t)?;
    convert::<X, DhDecapsulator<X>>(a, |x, y| x == y, &what, t)?;
    partial::<X, DhEncapsulator<X>>(a, b, &what, t)?;
    partial::<X, DhDecapsulator<X>>(a, b, &what, t)?;
    total::<X, DhEncapsulator<X>>(a, b, &what, t)?;
    total::<X, DhDecapsulator<X>>(a, b, &what, t)
}

pub fn run(run: &mut Run) {
    run.explore("bytes", "all pairs of values of an 8-bit type, both wrappers, every operation", 1 << 16, |i, t| everything(&(i as u8), &((i >> 8) as u8), t));
    let arrays: Vec<[u8; 4]> = (0..256u32).map(|i| core::array::from_fn(|j| [0u8, 1, 0x80, 0xff][(i >> (2 * j) & 3) as usize])).collect();
    run.explore("arrays", "all pairs of 4-byte arrays over {0, 1, 0x80, 0xff}", 1 << 16, |i, t| everything(&arrays[(i & 255) as usize], &arrays[(i >> 8) as usize], t));
    let strings: Vec<Vec<u8>> = (0..40u32).map(|i| match i { 0 => vec![], 1..=3 => vec![(i - 1) as u8], 4..=12 => vec![((i - 4) % 3) as u8, ((i - 4) / 3) as u8], _ => (0..3).map(|j| ((i - 13) / 3u32.pow(j) % 3) as u8).collect() }).collect();
    run.explore("byte strings", "all pairs of byte strings of length 0..3 over a 3-letter alphabet", 1600, |i, t| everything(&strings[(i % 40) as usize], &strings[(i / 40) as usize], t));
    run.explore("options and pairs", "all pairs of (Option<bool>, i8 in -2..2) values", 225, |i, t| {
        let f = |j: u64| ([None, Some(false), Some(true)][(j % 3) as usize], (j / 3) as i8 - 2);
        everything(&f(i % 15), &f(i / 15), t)
    });
    run.explore("unit", "the unit type", 1, |_, t| everything(&(), &(), t));
    run.explore("unconventional equality and order", "all pairs of values of a type whose equality, order and hash are coarser than identity and reversed", 24 * 24, |i, t| everything(&Spy((i % 24) as u8), &Spy((i / 24) as u8), t));
    let floats = [f32::NAN, -f32::INFINITY, -1.0, -0.0, 0.0, 1.0, f32::INFINITY, f32::MIN_POSITIVE, -f32::NAN];
    run.explore("partial order", "all pairs of floats including NaN and signed zeros: incomparable values stay incomparable", 81, |i, t| {
        let (a, b) = (Partial(floats[(i % 9) as usize]), Partial(floats[(i / 9) as usize]));
        let what = || format!("of {a:?} and {b:?}");
        let bits = |x: &Partial, y: &Partial| x.0.to_bits() == y.0.to_bits();
        convert::<Partial, DhEncapsulator<Partial>>(&a, bits, &what, t)?;
        convert::<Partial, DhDecapsulator<Partial>>(&a, bits, &what, t)?;
        partial::<Partial, DhEncapsulator<Partial>>(&a, &b, &what, t)?;
        partial::<Partial, DhDecapsulator<Partial>>(&a, &b, &what, t)
    });
    run.explore("what is asked of the wrapped value", "every word of 1..4 operations from {clone, clone and drop, unwrap by reference, zeroise} then {drop, unwrap} on a recording value: values are cloned, dropped and zeroised exactly when the wrapper is", 2 * (4 + 16 + 64 + 256) * 2, |i, t| {
        let (enc, i) = (i % 2 == 0, i / 2);
        let (end, mut j) = (i % 2, i / 2);
        let mut len = 1;
        while j >= 4u64.pow(len) {
            j -= 4u64.pow(len);
            len += 1;
        }
        let word: Vec<u64> = (0..len).map(|x| j / 4u64.pow(x) % 4).collect();
        t.ops(len as u64 + 1);
        t.trace();
        let a = if enc { story::<DhEncapsulator<Spy>>(&word, end) } else { story::<DhDecapsulator<Spy>>(&word, end) };
        let b = story::<Bare>(&word, end);
        same(|| format!("{} word {word:?}, end {end}", if enc { "encapsulator" } else { "decapsulator" }), "effects", a, b)
    });
    #[cfg(feature = "zeroize")]
    run.explore("zeroise", "all 3-byte arrays over 5 values and byte strings of length 0..3: zeroising the wrapper leaves what zeroising the value leaves", 125 + 40, |i, t| {
        use zeroize::Zeroize;
        t.ops(2);
        t.trace();
        if i < 125 {
            let v: [u8; 3] = core::array::from_fn(|j| [0, 1, 0x7f, 0x80, 0xff][(i / 5u64.pow(j as u32) % 5) as usize]);
            let (mut e, mut d) = (DhEncapsulator::from(v), DhDecapsulator::from(v));
            e.zeroize();
            d.zeroize();
            same(|| format!("encapsulator of {v:?}"), "zeroize", e.into_inner(), [0; 3])?;
            same(|| format!("decapsulator of {v:?}"), "zeroize", d.into_inner(), [0; 3])
        } else {
            let v = strings[(i - 125) as usize].clone();
            let (mut e, mut d) = (DhEncapsulator::from(v.clone()), DhDecapsulator::from(v.clone()));
            e.zeroize();
            d.zeroize();
            same(|| format!("encapsulator of {v:?}"), "zeroize", e.into_inner(), vec![])?;
            same(|| format!("decapsulator of {v:?}"), "zeroize", d.into_inner(), vec![])
        }
    });
    run.explore("markers", "with zeroisation, a wrapper is marked as erased on drop exactly when its value is", 4, |i, t| {
        t.trace();
        marker(i)
    });
    macro_rules! points {
        ($i:expr, $t:ident, $curve:ty) => {{
            use crate::face::{Dh, $t};
            let peers = $t::peers();
            let n = peers.len() as u64;
            run.explore(&format!("{} points", $t::NAME), "every point of the pool, compressed and not: the wrapper encodes as the key; equality and order of all pairs with 8 others", n * 9, |i, t| {
                use elliptic_curve::sec1::{FromEncodedPoint, ToEncodedPoint};
                let pk = |b: &[u8]| -> elliptic_curve::PublicKey<$curve> {
                    Option::from(elliptic_curve::PublicKey::from_encoded_point(&elliptic_curve::sec1::EncodedPoint::<$curve>::from_bytes(b).unwrap())).unwrap()
                };
                let a = pk(&peers[(i % n) as usize].1);
                let b = pk(&peers[((i % n + (i / n) * (i / n)) % n) as usize].1);
                let w = DhEncapsulator::from(a);
                t.ops(10);
                t.trace();
                for compress in [false, true] {
                    same(|| format!("point encoding (compressed: {compress})"), "encode", w.to_encoded_point(compress).as_bytes().to_vec(), a.to_encoded_point(compress).as_bytes().to_vec())?;
                }
                let what = || format!("of {} and another point", peers[(i % n) as usize].0);
                convert::<_, DhEncapsulator<_>>(&a, |x, y| x == y, &what, t)?;
                partial::<_, DhEncapsulator<_>>(&a, &b, &what, t)
            });
        }};
    }
    points!(0, Secp256k1, k256::Secp256k1);
    points!(1, P256, p256::NistP256);
    points!(2, P384, p384::NistP384);
    points!(3, P521, p521::NistP521);
    let sp = vlib::x25519::special_points();
    run.explore("X25519 keys", "all pairs of special X25519 public keys", (sp.len() * sp.len()) as u64, |i, t| {
        let f = |j: usize| x25519_dalek::PublicKey::from(sp[j].1);
        let (a, b) = (f(i as usize % sp.len()), f(i as usize / sp.len()));
        t.ops(4);
        t.trace();
        let (x, y) = (DhEncapsulator::from(a), DhEncapsulator::from(b));
        same(|| "==".into(), "eq", x == y, a == b)?;
        same(|| "hash".into(), "hash", hashed(&x), hashed(&a))?;
        same(|| "as_ref".into(), "as-ref", *x.as_ref().as_bytes(), *a.as_bytes())?;
        same(|| "into_inner".into(), "into-inner", x.into_inner().to_bytes(), a.to_bytes())
    });
}

/// A value without wrapper, driven the same way.
#[derive(Clone)]
struct Bare(Spy);
trait Story: Clone {
    fn new(x: Spy) -> Self;
    fn see(&self) -> u8;
    fn zero(&mut self);
    fn out(self) -> Spy;
}
impl Story for Bare {
    fn new(x: Spy) -> Self {
        Bare(x)
    }
    fn see(&self) -> u8 {
        self.0 .0
    }
    fn zero(&mut self) {
        #[cfg(feature = "zeroize")]
        zeroize::Zeroize::zeroize(&mut self.0)
    }
    fn out(self) -> Spy {
        self.0
    }
}
macro_rules! story_for {
    ($w:ident) => {
        impl Story for $w<Spy> {
            fn new(x: Spy) -> Self {
                $w::from(x)
            }
            fn see(&self) -> u8 {
                self.as_ref().0
            }
            fn zero(&mut self) {
                #[cfg(feature = "zeroize")]
                zeroize::Zeroize::zeroize(self)
            }
            fn out(self) -> Spy {
                self.into_inner()
            }
        }
    };
}
story_for!(DhEncapsulator);
story_for!(DhDecapsulator);

fn story<W: Story>(word: &[u64], end: u64) -> Vec<(&'static str, u8)> {
    take_log();
    let mut w = W::new(Spy(9));
    for o in word {
        match o {
            0 => w = w.clone(),
            1 => drop(w.clone()),
            2 => log("see", w.see()),
            _ => w.zero(),
        }
    }
    if end == 0 {
        drop(w);
    } else {
        let x = w.out();
        log("out", x.0);
    }
    take_log()
}

#[cfg(feature = "zeroize")]
struct ZodProbe<T>(core::marker::PhantomData<T>);
#[cfg(feature = "zeroize")]
trait NotZod {
    const YES: bool = false;
}
#[cfg(feature = "zeroize")]
impl<T> NotZod for ZodProbe<T> {}
#[cfg(feature = "zeroize")]
impl<T: zeroize::ZeroizeOnDrop> ZodProbe<T> {
    const YES: bool = true;
}
#[cfg(feature = "zeroize")]
struct Erased;
#[cfg(feature = "zeroize")]
impl zeroize::ZeroizeOnDrop for Erased {}

fn marker(i: u64) -> Outcome {
    let v: Vec<(&str, bool, bool)> = vec![
        #[cfg(feature = "zeroize")]
        ("ZeroizeOnDrop of an encapsulator of an erased value", <ZodProbe<DhEncapsulator<Erased>>>::YES, true),
        #[cfg(feature = "zeroize")]
        ("ZeroizeOnDrop of a decapsulator of an erased value", <ZodProbe<DhDecapsulator<Erased>>>::YES, true),
        #[cfg(feature = "zeroize")]
        ("ZeroizeOnDrop of an encapsulator of a plain value", <ZodProbe<DhEncapsulator<u8>>>::YES, false),
        #[cfg(feature = "zeroize")]
        ("ZeroizeOnDrop of a decapsulator of a plain value", <ZodProbe<DhDecapsulator<u8>>>::YES, false),
    ];
    match v.get(i as usize) {
        Some((what, got, want)) => same(|| what.to_string(), "marker", *got, *want),
        None => Ok(()),
    }
}
