//! C21: the sequence of instructions executed does not depend on secrets.
//!
//! The explorer enumerates inputs; workers (this program under the Valgrind tool "flow") execute the
//! real code on them and compare the instructions executed.
mod dhs;
mod mls;
mod watch;
mod worker;
mod xws;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use vlib::engine::Run;

pub struct Input {
    pub what: String,
    pub bytes: Vec<u8>,
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}
static IDLE: Mutex<Vec<Worker>> = Mutex::new(vec![]);

impl Worker {
    fn start() -> Worker {
        let lib = std::env::var("VERIF_FLOW").expect("VERIF_FLOW: folder of the Valgrind tool");
        let mut child = Command::new("valgrind")
            .args(["--tool=flow", "-q", "--max-threads=8"])
            .arg(std::env::current_exe().unwrap())
            .arg("worker")
            .env("VALGRIND_LIB", lib)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("valgrind");
        let (to, mut from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        let mut ready = [0; 5];
        if from.read_exact(&mut ready).is_err() || &ready != b"ready" {
            // no observation, hence no verdict
            eprintln!("the worker does not start or its observation does not work");
            std::process::exit(3);
        }
        Worker { child, to, from }
    }
    /// one reference, many inputs -> what was seen for each
    fn judge(&mut self, op: u8, inputs: &[&Input]) -> Result<Vec<watch::Seen>, String> {
        let io = |e: std::io::Error| format!("worker: {e}");
        let mut m = vec![op];
        m.extend((inputs.len() as u32).to_le_bytes());
        m.extend((inputs[0].bytes.len() as u32).to_le_bytes());
        for i in inputs {
            assert_eq!(i.bytes.len(), inputs[0].bytes.len());
            m.extend(&i.bytes);
        }
        self.to.write_all(&m).map_err(io)?;
        self.to.flush().map_err(io)?;
        let mut r = vec![];
        for _ in inputs {
            let mut b = [0u8; 32];
            self.from.read_exact(&mut b).map_err(io)?;
            r.push(std::array::from_fn(|k| u64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap())));
        }
        Ok(r)
    }
}

/// Executes `op` on all inputs; each must execute the instructions the first one does.
pub fn explore(run: &mut Run, name: &str, what: &str, op: u8, group: usize, inputs: &[Input]) {
    if !run.wants(name) {
        return;
    }
    let n = inputs.len();
    let groups = n.div_ceil(group) as u64;
    run.explore(
        name,
        &format!("{n} inputs: {what}; every instruction address and every division's operands, in order, are those of the reference input"),
        groups,
        |g, t| {
            let range = g as usize * group..((g as usize + 1) * group).min(n);
            let mut list = vec![&inputs[0]];
            list.extend(&inputs[range.clone()]);
            let mut w = IDLE.lock().unwrap().pop().unwrap_or_else(Worker::start);
            let seen = match w.judge(op, &list) {
                Ok(s) => s,
                Err(e) => {
                    let _ = w.child.kill();
                    let s = w.child.wait();
                    return vlib::engine::fail("crash", format!("{name}: {e}, {s:?}"));
                }
            };
            IDLE.lock().unwrap().push(w);
            let mut bad = None;
            for (i, s) in range.zip(&seen[1..]) {
                t.states += 1;
                t.trace();
                t.ops(1);
                t.outcome(&s[2].to_le_bytes());
                if s[0] == worker::PANICKED {
                    return vlib::engine::fail("panic", format!("{name} panicked on {}", inputs[i].what));
                }
                if s[2] != u64::MAX {
                    bad.get_or_insert((i, s));
                }
                t.sample(|| format!("{}: {} instructions, as for {}", inputs[i].what, s[1], inputs[0].what));
            }
            match bad {
                Some((i, s)) => vlib::engine::fail(
                    "secret-dependent",
                    format!(
                        "{name}: {} and {} execute different instructions ({} and {} in all; the first difference after {}, at +{:#x} in the program)",
                        inputs[0].what, inputs[i].what, s[0], s[1], s[2], s[3]
                    ),
                ),
                None => Ok(()),
            }
        },
    );
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("worker") {
        return worker::main();
    }
    let mut run = Run::from_args();
    run.note("every worker first shows that it sees branches, lengths and divisions that depend on data, and is silent where none does");
    mls::run(&mut run);
    xws::run(&mut run);
    dhs::run(&mut run);
    for mut w in IDLE.lock().unwrap().drain(..) {
        drop(w.to);
        let _ = w.child.wait();
    }
    run.finish()
}
