//! Exhaustive enumeration engine: a run is a list of sections, a section is a finite, totally
//! ordered set of executions of the real code, and every one of them is executed and judged.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A violation. `key` names the kind of violation (for the known-findings file).
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub detail: String,
}
pub type Outcome = Result<(), Fail>;

pub fn fail<T>(key: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail { key: $key.into(), detail: format!($($arg)*) });
        }
    };
}

pub fn expect_eq(key: &str, what: &str, got: &[u8], want: &[u8]) -> Outcome {
    if got == want {
        return Ok(());
    }
    fail(
        key,
        format!(
            "{what}: {} (implementation {}, model {})",
            crate::first_diff(got, want),
            crate::brief(got),
            crate::brief(want)
        ),
    )
}

pub fn hash64(b: &[u8]) -> u64 {
    // FNV-1a with a final mix: only used to count distinct outcomes
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

#[derive(Default)]
pub struct Tally {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub outcomes_capped: bool,
    pub index: u64,
    pub samples: Vec<String>,
    pub want_sample: bool,
}
const OUTCOME_CAP: usize = 200_000;

impl Tally {
    /// operations of the real code executed
    pub fn ops(&mut self, n: u64) {
        self.transitions += n;
    }
    /// executions of the real code compared with the model
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, b: &[u8]) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(hash64(b));
        } else {
            self.outcomes_capped = true;
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.want_sample {
            self.samples.push(s());
            self.want_sample = false;
        }
    }
}

struct Section {
    name: String,
    rule: String,
    items: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    distinct: u64,
    distinct_capped: bool,
    samples: Vec<String>,
    complete: bool,
    wall: f64,
}

#[derive(Clone)]
struct Failure {
    section: String,
    index: u64,
    key: String,
    detail: String,
    count: u64,
}

pub struct Run {
    out: Option<String>,
    only: Option<(String, Option<u64>)>,
    pub tier: String,
    pub args: Vec<String>,
    sections: Vec<Section>,
    failures: BTreeMap<String, Failure>,
    notes: Vec<String>,
    threads: usize,
    start: Instant,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                if (c as u32) < 0x10000 {
                    let _ = write!(o, "\\u{:04x}", c as u32);
                } else {
                    o.push('?');
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs `f`; a panic is returned as a message instead of unwinding further.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

impl Run {
    /// `PROG <args...> [--out F] [--tier T] [--section S [--index I]] [--threads N]`
    pub fn from_args() -> Run {
        quiet_panics();
        let mut r = Run {
            out: None,
            only: None,
            tier: "quick".into(),
            args: vec![],
            sections: vec![],
            failures: BTreeMap::new(),
            notes: vec![],
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            start: Instant::now(),
        };
        let mut a = std::env::args().skip(1);
        let (mut s, mut i) = (None, None);
        while let Some(x) = a.next() {
            let mut val = || a.next().expect("argument value");
            match x.as_str() {
                "--out" => r.out = Some(val()),
                "--tier" => r.tier = val(),
                "--section" => s = Some(val()),
                "--index" => i = Some(val().parse().expect("index")),
                "--threads" => r.threads = val().parse().expect("threads"),
                _ => r.args.push(x),
            }
        }
        r.only = s.map(|s| (s, i));
        r
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    pub fn wants(&self, name: &str) -> bool {
        self.only.as_ref().is_none_or(|(s, _)| s == name)
    }

    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }

    fn record(&mut self, f: Failure) {
        let id = format!("{}\u{0}{}", f.section, f.key);
        if let Some(old) = self.failures.get_mut(&id) {
            let n = old.count + f.count;
            if f.index < old.index {
                *old = f;
            }
            old.count = n;
        } else if self.failures.len() < 400 {
            self.failures.insert(id, f);
        }
    }

    /// Executes and judges items 0..n of a section, in parallel.
    pub fn explore(
        &mut self,
        name: &str,
        rule: &str,
        n: u64,
        f: impl Fn(u64, &mut Tally) -> Outcome + Sync,
    ) {
        let threads = self.threads;
        self.explore_on(threads, name, rule, n, f)
    }

    pub fn explore_on(
        &mut self,
        threads: usize,
        name: &str,
        rule: &str,
        n: u64,
        f: impl Fn(u64, &mut Tally) -> Outcome + Sync,
    ) {
        if !self.wants(name) {
            return;
        }
        let (lo, hi) = match &self.only {
            Some((_, Some(i))) => (*i, *i + 1),
            _ => (0, n),
        };
        if lo >= n && n > 0 {
            eprintln!("section {name} has no item {lo}");
            std::process::exit(2);
        }
        let t0 = Instant::now();
        let threads = threads.max(1).min((hi - lo).max(1) as usize);
        let chunk = ((hi - lo) / (threads as u64 * 16)).clamp(1, 4096);
        let next = AtomicU64::new(lo);
        let done: Mutex<Vec<Tally>> = Mutex::new(vec![]);
        let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
        let now: Vec<(AtomicU64, AtomicU64)> =
            (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let alive = AtomicU64::new(threads as u64);
        let limit = Duration::from_secs(
            std::env::var("VERIF_ITEM_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(150),
        );
        let mut hung = None;
        std::thread::scope(|sc| {
            for w in 0..threads {
                let (next, done, fails, now, alive, f) = (&next, &done, &fails, &now, &alive, &f);
                let body = move || {
                    let mut t = Tally::default();
                    let mut mine: BTreeMap<String, Failure> = BTreeMap::new();
                    loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= hi {
                            break;
                        }
                        let b = (a + chunk).min(hi);
                        for i in a..b {
                            now[w].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                            now[w].0.store(i, SeqCst);
                            t.index = i;
                            t.want_sample = i == lo || i == lo + (hi - lo) / 2 || i + 1 == hi;
                            let s0 = t.states;
                            let r = match no_panic(|| f(i, &mut t)) {
                                Ok(r) => r,
                                Err(m) => fail("panic", format!("panicked: {m}")),
                            };
                            if t.states == s0 {
                                t.states += 1;
                            }
                            if let Err(e) = r {
                                mine.entry(e.key.clone())
                                    .and_modify(|o| o.count += 1)
                                    .or_insert_with(|| Failure {
                                        section: name.into(),
                                        index: i,
                                        key: e.key.clone(),
                                        detail: e.detail.clone(),
                                        count: 1,
                                    });
                                if mine.len() > 100 {
                                    break;
                                }
                            }
                        }
                        if mine.len() > 100 {
                            break;
                        }
                    }
                    now[w].0.store(u64::MAX, SeqCst);
                    fails.lock().unwrap().extend(mine.into_values());
                    done.lock().unwrap().push(t);
                    alive.fetch_sub(1, SeqCst);
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).unwrap();
            }
            // watchdog: the code under test must terminate
            let mut pause = 1;
            while alive.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(pause));
                pause = (pause * 2).min(200);
                for w in &now {
                    let i = w.0.load(SeqCst);
                    let since = Duration::from_millis(w.1.load(SeqCst));
                    if i != u64::MAX && t0.elapsed().saturating_sub(since) > limit && w.0.load(SeqCst) == i {
                        hung = Some(i);
                    }
                }
                if let Some(i) = hung {
                    let f = Failure {
                        section: name.into(),
                        index: i,
                        key: "no-termination".into(),
                        detail: format!("did not terminate within {} s", limit.as_secs()),
                        count: 1,
                    };
                    self.record(f);
                    for f in fails.lock().unwrap().drain(..) {
                        self.record(f);
                    }
                    self.write();
                    std::process::exit(1);
                }
            }
        });
        let tallies = done.into_inner().unwrap();
        let mut s = Section {
            name: name.into(),
            rule: rule.into(),
            items: hi - lo,
            states: 0,
            transitions: 0,
            traces: 0,
            distinct: 0,
            distinct_capped: false,
            samples: vec![],
            complete: hi - lo == n,
            wall: 0.,
        };
        let mut all = HashSet::new();
        let mut samples: Vec<(u64, String)> = vec![];
        for t in tallies {
            s.states += t.states;
            s.transitions += t.transitions;
            s.traces += t.traces;
            s.distinct_capped |= t.outcomes_capped;
            all.extend(t.outcomes);
            samples.extend(t.samples.into_iter().map(|x| (x.len() as u64, x)));
        }
        s.distinct = all.len() as u64;
        s.samples = samples.into_iter().map(|x| x.1).take(3).collect();
        s.wall = t0.elapsed().as_secs_f64();
        let before = self.failures.len();
        for f in fails.into_inner().unwrap() {
            self.record(f);
        }
        eprintln!(
            "  {:<34} items {:>9} states {:>10} transitions {:>10} traces {:>9} distinct outcomes {:>7} {:>6.1}s{}",
            s.name, s.items, s.states, s.transitions, s.traces, s.distinct, s.wall,
            if self.failures.len() > before { "  FAIL" } else { "" }
        );
        self.sections.push(s);
    }

    fn json(&self) -> String {
        let mut o = String::from("{\n \"sections\": [");
        for (i, s) in self.sections.iter().enumerate() {
            let _ = write!(
                o,
                "{}\n  {{\"name\": {}, \"rule\": {}, \"items\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"distinct\": {}, \"distinct_capped\": {}, \"complete\": {}, \"wall\": {:.3}, \"samples\": [{}]}}",
                if i > 0 { "," } else { "" },
                esc(&s.name), esc(&s.rule), s.items, s.states, s.transitions, s.traces, s.distinct,
                s.distinct_capped, s.complete, s.wall,
                s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")
            );
        }
        o.push_str("\n ],\n \"failures\": [");
        for (i, f) in self.failures.values().enumerate() {
            let _ = write!(
                o,
                "{}\n  {{\"section\": {}, \"index\": {}, \"key\": {}, \"detail\": {}, \"count\": {}}}",
                if i > 0 { "," } else { "" },
                esc(&f.section), f.index, esc(&f.key), esc(&f.detail), f.count
            );
        }
        let _ = write!(
            o,
            "\n ],\n \"notes\": [{}],\n \"tier\": {},\n \"wall\": {:.3}\n}}\n",
            self.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "),
            esc(&self.tier),
            self.start.elapsed().as_secs_f64()
        );
        o
    }

    fn write(&self) {
        for f in self.failures.values() {
            eprintln!("  FAILED {} #{} [{}] x{}: {}", f.section, f.index, f.key, f.count, f.detail);
        }
        if let Some(p) = &self.out {
            std::fs::write(p, self.json()).expect("write result");
        }
    }

    /// 0 if nothing failed, 1 if something did.
    pub fn finish(self) -> ! {
        if self.sections.is_empty() {
            eprintln!("nothing explored");
            std::process::exit(2);
        }
        self.write();
        std::process::exit(if self.failures.is_empty() { 0 } else { 1 })
    }
}

/// One operation of a history: what it is, how to run it, and what it must give.
pub struct Op {
    pub name: String,
    pub run: Box<dyn Fn() -> Vec<u8>>,
    pub want: Vec<u8>,
}

impl Op {
    pub fn new(name: impl Into<String>, want: Vec<u8>, run: impl Fn() -> Vec<u8> + 'static) -> Op {
        Op { name: name.into(), run: Box::new(run), want }
    }
    pub fn exec(&self, context: impl Fn() -> String) -> Outcome {
        let got = match no_panic(|| (self.run)()) {
            Ok(g) => g,
            Err(m) => return fail("panic", format!("{} panicked ({m}) {}", self.name, context())),
        };
        if got == self.want {
            return Ok(());
        }
        expect_eq("history", &format!("{} {}", self.name, context()), &got, &self.want)
    }
}

/// Values used by one thread only, or handed over with the scheduler's baton.
pub struct Solo<T>(pub T);
unsafe impl<T> Sync for Solo<T> {}
unsafe impl<T> Send for Solo<T> {}
impl<T> Solo<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

impl Run {
    /// Runs the operations one after another in one thread, in the order of `seq`; every result is
    /// compared. Item i is the i-th operation with the whole history before it.
    pub fn history(&mut self, name: &str, rule: &str, ops: &Solo<Vec<Op>>, seq: &[usize], order: usize) {
        let replaying = self.replaying();
        self.explore_on(1, name, rule, seq.len() as u64, |i, t| {
            let i = i as usize;
            if replaying {
                for &p in &seq[..i] {
                    let _ = no_panic(|| (ops.get()[p].run)());
                }
            }
            let op = &ops.get()[seq[i]];
            t.ops(1);
            t.trace();
            t.outcome(&op.want);
            t.sample(|| seq[i.saturating_sub(order - 1)..=i].iter().map(|&p| ops.get()[p].name.clone()).collect::<Vec<_>>().join("; "));
            op.exec(|| {
                format!("after the history ..{}", seq[i.saturating_sub(order)..i].iter().map(|&p| format!("{}; ", ops.get()[p].name)).collect::<String>())
            })
        });
    }
}
