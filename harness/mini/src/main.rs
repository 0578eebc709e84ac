//! Executes cases (one per line: operation, expected results) with whatever features, profile and
//! target this binary was built for.
//!
//!     mini FILE [only N] | [share I N] [list]
#![allow(unused)]
#[cfg(feature = "mlkem")]
#[path = "../../common/scheme.rs"]
#[macro_use]
mod scheme;
#[cfg(not(feature = "mlkem"))]
mod tape;
mod ops;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c - b'0' };
    s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
fn hex(b: &[u8]) -> String {
    let d = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(d[(x >> 4) as usize] as char);
        s.push(d[(x & 15) as usize] as char);
    }
    s
}

/// Executes one line; what it finds goes to `out`. None if this binary does not offer the operation.
fn execute(i: usize, line: &str, out: &mut dyn FnMut(String)) -> Option<(u64, u64)> {
    let (mut ops, mut bad) = (0, 0);
    let (call, want) = line.split_once(" = ").expect("case");
    let mut words = call.split(' ');
    let name = words.next().unwrap();
    let set = words.next().unwrap();
    if !ops::supported(name, set) {
        return None;
    }
    let a: Vec<Vec<u8>> = words.map(unhex).collect();
    let want: Vec<Vec<u8>> = want.split(' ').map(unhex).collect();
    match catch_unwind(AssertUnwindSafe(|| ops::exec(name, set, &a))) {
        Err(_) => {
            bad += 1;
            out(format!("FAIL {i} panic {name} {set} panicked"));
        }
        Ok(all) => {
            ops += all.len() as u64;
            for (how, got) in all {
                if got.len() != want.len() {
                    bad += 1;
                    out(format!("FAIL {i} results {name} {set} ({how}): {} results", got.len()));
                }
                for (j, (g, w)) in got.iter().zip(&want).enumerate() {
                    if g != w {
                        bad += 1;
                        let at = g.iter().zip(w).position(|(x, y)| x != y);
                        out(format!("FAIL {i} value {name} {set} ({how}): result {j} differs, {} and {} bytes, first difference at {at:?}; got {}..", g.len(), w.len(), hex(&g[..g.len().min(32)])));
                    }
                }
            }
        }
    }
    Some((ops, bad))
}

fn main() {
    if cfg!(target_arch = "wasm32") {
        return;
    }
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("case file");
    let num = |i: usize| args[i].parse::<usize>().unwrap();
    let list = args.iter().any(|a| a == "list");
    let pick: Box<dyn Fn(usize) -> bool> = match args.get(2).map(|s| s.as_str()) {
        Some("only") => { let n = num(3); Box::new(move |i| i == n) }
        Some("share") => { let (a, n) = (num(3), num(4)); Box::new(move |i| i % n == a) }
        _ => Box::new(|_| true),
    };
    std::panic::set_hook(Box::new(|i| println!("PANICINFO {}", i.to_string().replace('\n', " "))));
    let (mut ran, mut ops, mut bad) = (0u64, 0u64, 0u64);
    for (i, line) in text.lines().enumerate() {
        if !pick(i) {
            continue;
        }
        if let Some((o, b)) = execute(i, line, &mut |s| println!("{s}")) {
            if list {
                println!("CASE {i}");
            }
            ran += 1;
            ops += o;
            bad += b;
        }
    }
    println!("DONE {ran} cases {ops} operations {bad} bad");
    std::process::exit(if bad > 0 { 1 } else { 0 });
}

/// What `wasm.mjs` calls: the host writes a line into `buffer(n)`, calls `run`, and reads `text`.
#[cfg(target_arch = "wasm32")]
mod host {
    use std::cell::RefCell;
    thread_local! {
        static LINE: RefCell<Vec<u8>> = RefCell::new(Vec::new());
        static TEXT: RefCell<String> = RefCell::new(String::new());
    }
    fn say(s: String) {
        TEXT.with(|t| {
            let mut t = t.borrow_mut();
            t.push_str(&s);
            t.push('\n');
        })
    }
    #[no_mangle]
    extern "C" fn buffer(n: usize) -> *mut u8 {
        std::panic::set_hook(Box::new(|i| say(format!("PANICINFO {}", i.to_string().replace('\n', " ")))));
        LINE.with(|l| {
            *l.borrow_mut() = vec![0; n];
            l.borrow_mut().as_mut_ptr()
        })
    }
    /// The number of operations executed, or -1 if there are none for this line.
    #[no_mangle]
    extern "C" fn run(i: usize) -> i64 {
        TEXT.with(|t| t.borrow_mut().clear());
        let line = LINE.with(|l| l.borrow().clone());
        match super::execute(i, std::str::from_utf8(&line).unwrap(), &mut say) {
            Some((o, _)) => o as i64,
            None => -1,
        }
    }
    #[no_mangle]
    extern "C" fn text() -> *const u8 {
        TEXT.with(|t| t.borrow().as_ptr())
    }
    #[no_mangle]
    extern "C" fn length() -> usize {
        TEXT.with(|t| t.borrow().len())
    }
}
