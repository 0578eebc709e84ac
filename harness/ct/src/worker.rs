//! Executes what it is told under observation.
use crate::watch::{self, Seen};
use crate::{dhs, mls, xws};
use std::hint::black_box;
use std::io::{stdin, stdout, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PANICKED: u64 = u64::MAX;

/// An operation with inputs that can be replaced in place: addresses stay the same.
pub trait Subject {
    fn set(&mut self, input: &[u8]);
    fn run(&mut self);
}

fn subject(op: u8) -> Box<dyn Subject> {
    match op {
        0..=29 => mls::subject(op),
        30..=39 => xws::subject(op),
        _ => dhs::subject(op),
    }
}

/// Plays back bytes, in place.
pub struct Tape {
    pub bytes: [u8; 160],
    pub at: usize,
}
impl Tape {
    pub fn new() -> Tape {
        Tape { bytes: [1; 160], at: 0 }
    }
    pub fn load(&mut self, b: &[u8]) {
        self.bytes[..b.len()].copy_from_slice(b);
    }
}
impl rand_core::RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        unimplemented!()
    }
    fn next_u64(&mut self) -> u64 {
        unimplemented!()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let n = d.len();
        d.copy_from_slice(&self.bytes[self.at..self.at + n]);
        self.at += n;
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Tape {}

#[inline(never)]
fn once(record: bool, s: &mut dyn Subject, input: &[u8]) -> Seen {
    s.set(input);
    let cell = std::cell::RefCell::new(s);
    match catch_unwind(AssertUnwindSafe(|| watch::watched(record, &|| cell.borrow_mut().run()))) {
        Ok(r) => r,
        Err(_) => {
            watch::off();
            [PANICKED; 4]
        }
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        watch::off();
        eprintln!("{i}");
    }));
    watch::self_check();
    let (mut i, mut o) = (stdin().lock(), stdout().lock());
    o.write_all(b"ready").unwrap();
    o.flush().unwrap();
    loop {
        let mut head = [0; 9];
        if i.read_exact(&mut head).is_err() {
            return;
        }
        let n = u32::from_le_bytes(head[1..5].try_into().unwrap());
        let len = u32::from_le_bytes(head[5..9].try_into().unwrap()) as usize;
        let mut s = black_box(subject(head[0]));
        let mut input = vec![0; len];
        let mut answers = vec![];
        for k in 0..n {
            i.read_exact(&mut input).unwrap();
            if k == 0 {
                // lazily initialised state is not what is observed
                once(true, &mut *s, &input);
            }
            let seen = once(k == 0, &mut *s, &input);
            answers.extend(seen.iter().flat_map(|x| x.to_le_bytes()));
        }
        o.write_all(&answers).unwrap();
        o.flush().unwrap();
    }
}
