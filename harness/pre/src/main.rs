//! C12: every interleaving of two operations at every access to memory they share.
//!
//! The explorer enumerates (operation before, operation interrupted, operation in between); workers
//! (this program in single-threaded processes) execute every schedule of each, each in a process of its
//! own, see `trap` and `worker`.
mod ops;
#[path = "../../common/scheme.rs"]
#[macro_use]
mod scheme;
mod trap;
mod worker;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vlib::engine::{fail, Run};

struct Worker {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}
static IDLE: Mutex<Vec<Worker>> = Mutex::new(vec![]);

impl Worker {
    fn start(tier: &str) -> Worker {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", tier])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let (to, mut from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        let mut ready = [0; 5];
        if from.read_exact(&mut ready).is_err() || &ready != b"ready" {
            // no observation, hence no verdict
            eprintln!("the worker does not start or its observation does not work");
            std::process::exit(3);
        }
        Worker { child, to, from }
    }
    fn ask(&mut self, m: [u32; 5]) -> std::io::Result<([u64; 6], String)> {
        let b: Vec<u8> = m.iter().flat_map(|x| x.to_le_bytes()).collect();
        self.to.write_all(&b)?;
        self.to.flush()?;
        let mut b = [0u8; 52];
        self.from.read_exact(&mut b)?;
        let r = std::array::from_fn(|k| u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap()));
        let n = u32::from_le_bytes(b[48..].try_into().unwrap());
        let mut t = vec![0; n as usize];
        self.from.read_exact(&mut t)?;
        Ok((r, String::from_utf8_lossy(&t).into_owned()))
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("worker") {
        return worker::main();
    }
    let mut run = Run::from_args();
    run.note("every worker first shows that it sees an unguarded scratch variable, an unguarded cache and a key that remembers, and is silent about a locked cache and an idempotent initialisation");
    trap::install();
    let groups: Vec<(String, usize)> = ops::groups().into_iter().map(|g| (g.name, g.ops.len())).collect();
    let bound = run.pick(1, 2);
    let all = run.pick(false, true);
    let tier = run.pick("quick", "thorough");
    let until = Instant::now() + Duration::from_secs(run.pick(240, 3 * 3600));
    let (left, bad_ones) = (AtomicU64::new(0), AtomicU64::new(0));
    for (gi, (name, n)) in groups.iter().enumerate() {
        let n = *n as u64;
        // before: nothing, or any operation (quick: one of the two)
        let before = if all { n + 1 } else { 3 };
        let items = before * n * n;
        run.explore(
            &format!("preemption {name}"),
            &format!("{n} operations on shared keys: nothing, either or (thorough) any operation before, every operation interrupted at every access to shared writable memory that some operation writes (quick: at each of the first 192, then at each in another 64-byte cell or direction than the last), every operation in between (thorough: itself interrupted at every such access); all results, and both results again afterwards"),
            items,
            |i, t| {
                let (p, a, b) = (i / (n * n), i / n % n, i % n);
                let p = match p {
                    0 => u32::MAX,
                    p if all => p as u32 - 1,
                    1 => a as u32,
                    _ => b as u32,
                };
                if bad_ones.load(SeqCst) >= 8 || Instant::now() > until {
                    left.fetch_add(1, SeqCst);
                    return Ok(());
                }
                let mut w = IDLE.lock().unwrap().pop().unwrap_or_else(|| Worker::start(tier));
                let (r, bad) = match w.ask([gi as u32, p, a as u32, b as u32, bound]) {
                    Ok(r) => r,
                    Err(e) => {
                        bad_ones.fetch_add(1, SeqCst);
                        let _ = w.child.kill();
                        let s = w.child.wait();
                        return fail("crash", format!("{name}: {e}, {s:?}"));
                    }
                };
                IDLE.lock().unwrap().push(w);
                t.states += r[0];
                t.ops(r[1]);
                t.traces += r[0];
                t.outcome(&r[2].to_le_bytes());
                t.sample(|| format!("{} schedules; {} accesses to written memory in the interrupted operation, {} cells of memory written by any operation, {} accesses seen while looking for them, {} times a thread waited for a lock", r[0], r[2], r[3], r[4], r[5]));
                if !bad.is_empty() {
                    bad_ones.fetch_add(1, SeqCst);
                    return fail("interference", bad);
                }
                Ok(())
            },
        );
        // groups are done one after the other
        for mut w in IDLE.lock().unwrap().drain(..) {
            drop(w.to);
            let _ = w.child.wait();
        }
    }
    let left = left.load(SeqCst);
    if left > 0 {
        run.note(&format!("{left} items were left out: after eight failures, or for lack of time"));
    }
    run.finish()
}
