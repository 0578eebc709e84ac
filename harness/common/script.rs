//! Scripted random generators: the environment's answers are enumerated, not drawn.
#![allow(dead_code)]
use rand_core::{CryptoRng, RngCore};

/// What the generator does at one of its calls.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// call number `at` fails after writing `wrote` bytes of the request
    At { at: usize, wrote: usize },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call {
    Fill(usize),
    TryFill(usize),
    U32,
    U64,
}

/// Plays back a byte string whatever the shape of the calls, records the calls, and fails on cue:
/// the infallible methods panic (as the system generator does), the fallible one returns an error.
pub struct Script<'a> {
    pub bytes: &'a [u8],
    pub used: usize,
    pub calls: Vec<Call>,
    pub fault: Fault,
    pub failed: bool,
    /// only the one call fails, the next ones work again
    pub transient: bool,
    /// runs before call n is answered
    pub hook: Option<&'a mut dyn FnMut(usize)>,
}

pub const FAULT_MESSAGE: &str = "scripted generator failure";

impl<'a> Script<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Script { bytes, used: 0, calls: vec![], fault: Fault::None, failed: false, transient: false, hook: None }
    }
    pub fn failing(bytes: &'a [u8], at: usize, wrote: usize) -> Self {
        Script { fault: Fault::At { at, wrote }, ..Self::new(bytes) }
    }
    fn answer(&mut self, call: Call, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        let n = self.calls.len();
        self.calls.push(call);
        if let Some(h) = &mut self.hook {
            h(n);
        }
        let mut upto = dest.len();
        let mut bad = self.failed;
        if let Fault::At { at, wrote } = self.fault {
            if at == n {
                bad = true;
                upto = wrote.min(upto);
            }
        }
        for b in dest[..upto].iter_mut() {
            // beyond the script: an unmistakable constant (the use is recorded)
            *b = self.bytes.get(self.used).copied().unwrap_or(0xe7);
            self.used += 1;
        }
        if bad {
            self.failed = !self.transient;
            return Err(rand_core::Error::from(core::num::NonZeroU32::new(rand_core::Error::CUSTOM_START + 1).unwrap()));
        }
        Ok(())
    }
    fn must(r: Result<(), rand_core::Error>) {
        if r.is_err() {
            panic!("{}", FAULT_MESSAGE);
        }
    }
}

impl RngCore for Script<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        Self::must(self.answer(Call::U32, &mut b));
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        Self::must(self.answer(Call::U64, &mut b));
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        Self::must(self.answer(Call::Fill(dest.len()), dest));
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.answer(Call::TryFill(dest.len()), dest)
    }
}
impl CryptoRng for Script<'_> {}

use vlib::engine::{fail, no_panic, Outcome};

/// Runs `op` with a generator failing at every call and after every chosen partial write: it must
/// give no result. `alive` then checks that the keys still work. Returns the number of executions.
pub fn every_failure<R>(
    what: &str,
    bytes: &[u8],
    op: impl Fn(&mut Script) -> Option<R>,
    alive: impl Fn() -> Outcome,
) -> Result<u64, vlib::engine::Fail> {
    let mut s = Script::new(bytes);
    if no_panic(|| op(&mut s).is_some()) != Ok(true) {
        return fail("rng-result", format!("{what}: no result from a working generator"));
    }
    let calls = s.calls.clone();
    let mut n = 0;
    for (k, c) in calls.iter().enumerate() {
        let len = match c {
            Call::Fill(n) | Call::TryFill(n) => *n,
            Call::U32 => 4,
            Call::U64 => 8,
        };
        let mut cuts = vec![0, 1, len / 2, len.saturating_sub(1), len];
        cuts.dedup();
        for (wrote, transient) in cuts.iter().map(|&c| (c, false)).chain([(0, true), (len / 2, true)]) {
            let mut s = Script::failing(bytes, k, wrote);
            s.transient = transient;
            let r = no_panic(|| op(&mut s).is_some());
            n += 1;
            if r == Ok(true) {
                return fail("rng-failure-ignored", format!("{what}: the generator failed at call {k} ({c:?}) after {wrote} bytes, and the operation still returned a result"));
            }
            if let Err(m) = &r {
                if !m.contains(FAULT_MESSAGE) {
                    // any other panic is how the operation reports the failure; that is fine
                    let _ = m;
                }
            }
            alive()?;
        }
    }
    Ok(n)
}
