//! Runs schedules, each in a process of its own.
use crate::ops::{groups, Group};
use crate::trap::*;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use vlib::engine::{no_panic, quiet_panics};

/// Of how many accesses each is a point.
static EACH: AtomicU64 = AtomicU64::new(u64::MAX);
pub const OK: u32 = 1;
pub const WRONG: u32 = 2;

fn say(v: u32, t: String) {
    let s = st();
    if s.verdict.load(SeqCst) > OK {
        return;
    }
    let n = t.len().min(s.text.len());
    s.text[..n].copy_from_slice(&t.as_bytes()[..n]);
    s.text_len = n;
    s.verdict.store(v, SeqCst);
}

/// Runs `f` in a process of its own; Err if that dies.
fn forked(f: impl FnOnce()) -> Result<(), String> {
    reset();
    unsafe {
        let p = libc::fork();
        assert!(p >= 0);
        if p == 0 {
            libc::alarm(60);
            f();
            libc::_exit(0);
        }
        let mut status = 0;
        while libc::waitpid(p, &mut status, 0) != p {}
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
            return Ok(());
        }
        Err(if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGALRM => "the operations never finish".into(),
                n => format!("killed by signal {n}"),
            }
        } else {
            "the process ended early".into()
        })
    }
}

struct Known {
    group: Group,
    want: Vec<Vec<u8>>,
    /// accesses seen while discovering
    accesses: u64,
}

fn judge(g: &Known, i: usize, r: Result<Vec<u8>, String>, when: &str) {
    match r {
        Ok(r) if r == g.want[i] => {}
        Ok(r) => say(WRONG, format!("{} {when}: {}", g.group.ops[i].name, vlib::first_diff(&r, &g.want[i]))),
        Err(m) => say(WRONG, format!("{} {when} panicked: {m}", g.group.ops[i].name)),
    }
}

/// prelude, then a and b under the plan, then both again.
fn schedule(g: &Known, prelude: Option<usize>, a: usize, b: Option<usize>, plan: &[u32]) -> Result<(), String> {
    let s = st();
    s.each = EACH.load(SeqCst);
    s.plan = [u32::MAX; PLAN];
    s.plan[..plan.len()].copy_from_slice(plan);
    forked(|| {
        let op = |i: usize| no_panic(|| (g.group.ops[i].run)());
        if let Some(p) = prelude {
            judge(g, p, op(p), "run first");
        }
        let (mut ra, mut rb) = (None, None);
        std::thread::scope(|sc| {
            sc.spawn(|| ra = Some(take_part(0, || op(a))));
            sc.spawn(|| rb = take_part(1, || b.map(op)));
            conduct();
        });
        judge(g, a, ra.unwrap(), "interrupted");
        if let (Some(b), Some(r)) = (b, rb) {
            judge(g, b, r, "run in between");
            judge(g, a, op(a), "run again afterwards");
            judge(g, b, op(b), "run again afterwards");
        }
        let s = st();
        if s.verdict.load(SeqCst) == 0 {
            s.verdict.store(OK, SeqCst);
        }
    })?;
    if s.verdict.load(SeqCst) == OK {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&s.text[..s.text_len]).into_owned())
    }
}

/// The results of each operation alone in a fresh process, and which memory any operation writes.
fn discover(group: Group) -> Result<Known, String> {
    let n = group.ops.len();
    let mut want = vec![];
    for o in &group.ops {
        forked(|| {
            let s = st();
            match no_panic(|| (o.run)()) {
                Ok(r) => {
                    // longer results than the text fits are kept as their hash
                    let r = crate::ops::digest(&r);
                    s.text[..r.len()].copy_from_slice(&r);
                    s.text_len = r.len();
                    s.verdict.store(OK, SeqCst);
                }
                Err(m) => say(WRONG, m),
            }
        })?;
        let s = st();
        let t = s.text[..s.text_len].to_vec();
        if s.verdict.load(SeqCst) != OK {
            return Err(format!("{} panicked: {}", o.name, String::from_utf8_lossy(&t)));
        }
        want.push(t);
    }
    let mut k = Known { group, want, accesses: 0 };
    let s = st();
    s.logging = 1;
    s.limit = u64::MAX;
    let mut most = 0;
    s.all_cells = 1;
    s.ncells = 0;
    s.arena = libc::PROT_READ;
    let mut cells = vec![];
    let mut arena = false;
    for p in (0..n).map(Some).chain([None]) {
        for a in 0..n {
            schedule(&k, p, a, None, &[])?;
            let m = s.nlog.load(SeqCst) as usize;
            k.accesses += m as u64;
            most = most.max(m as u64);
            for &x in &s.log[..m.min(LOG)] {
                let at = (x >> 1) as usize;
                if x & 1 == 1 {
                    arena |= at >= ARENA;
                    if !cells.contains(&cell(at)) {
                        cells.push(cell(at));
                        cells.push(cell(at) + 1);
                    }
                }
            }
        }
    }
    s.logging = 0;
    s.limit = 4 * most + 64;
    if arena {
        s.arena = libc::PROT_NONE;
    }
    cells.sort();
    cells.dedup();
    if cells.len() <= CELLS {
        s.all_cells = 0;
        s.ncells = cells.len();
        s.cells[..cells.len()].copy_from_slice(&cells);
    }
    Ok(k)
}

pub struct Answer {
    pub schedules: u64,
    pub operations: u64,
    pub points: u64,
    pub cells: u64,
    pub accesses: u64,
    pub blocked: u64,
    pub bad: Option<String>,
}

fn explore(k: &Known, prelude: Option<usize>, a: usize, b: usize, bound: u8) -> Answer {
    let s = st();
    let mut r = Answer { schedules: 0, operations: 0, points: 0, cells: s.ncells as u64, accesses: k.accesses, blocked: 0, bad: None };
    let mut one = |plan: &[u32]| -> Result<[u64; 2], String> {
        let x = schedule(k, prelude, a, Some(b), plan);
        r.schedules += 1;
        r.operations += 4 + prelude.is_some() as u64;
        r.blocked += s.blocked.load(SeqCst) as u64;
        x.map_err(|e| {
            let name = |i: usize| &k.group.ops[i].name;
            format!(
                "{}; {} is interrupted at its point {} among its accesses to memory that operations write{}, and {} runs there: {e}",
                prelude.map_or("nothing before".into(), |p| format!("after {}", name(p))),
                name(a), plan[0], if plan.len() > 1 { format!(" (and the other at its point {})", plan[1]) } else { String::new() }, name(b)
            )
        })?;
        Ok([s.seen[0].load(SeqCst), s.seen[1].load(SeqCst)])
    };
    // one preemption: at every access of a
    let mut i = 0;
    let mut points = 0;
    let mut go = || -> Result<(), String> {
        loop {
            let n = one(&[i])?;
            points = points.max(n[0]);
            if bound > 1 && (i as u64) < n[0] {
                // a second one: b in turn is interrupted at each of its accesses
                let mut j = 0;
                loop {
                    let n = one(&[i, j])?;
                    j += 1;
                    if j as u64 >= n[1] {
                        break;
                    }
                }
            }
            i += 1;
            // the last schedule has no preemption within a
            if i as u64 > n[0] {
                return Ok(());
            }
        }
    };
    let e = go().err();
    r.points = points;
    r.bad = e;
    r
}

fn byte(v: u32) -> [u8; 4] {
    v.to_le_bytes()
}

pub fn main() {
    quiet_panics();
    install();
    let mut groups: Vec<Option<Group>> = groups().into_iter().map(Some).collect();
    self_check();
    if std::env::args().nth(2).as_deref() == Some("quick") {
        EACH.store(192, SeqCst);
    }
    let mut known: Option<(usize, Result<Known, String>)> = None;
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    o.write_all(b"ready").unwrap();
    o.flush().unwrap();
    let mut m = [0u8; 20];
    while i.read_exact(&mut m).is_ok() {
        let f: Vec<u32> = m.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let gi = f[0] as usize;
        if known.as_ref().map(|k| k.0) != Some(gi) {
            let g = groups[gi].take().expect("one group after the other");
            known = Some((gi, discover(g)));
        }
        let a = match &known.as_ref().unwrap().1 {
            Ok(k) => {
                let p = match f[1] {
                    u32::MAX => None,
                    p => Some(p as usize),
                };
                explore(k, p, f[2] as usize, f[3] as usize, f[4] as u8)
            }
            Err(e) => Answer { schedules: 0, operations: 0, points: 0, cells: 0, accesses: 0, blocked: 0, bad: Some(e.clone()) },
        };
        let text = a.bad.unwrap_or_default();
        for x in [a.schedules, a.operations, a.points, a.cells, a.accesses, a.blocked] {
            o.write_all(&x.to_le_bytes()).unwrap();
        }
        o.write_all(&byte(text.len() as u32)).unwrap();
        o.write_all(text.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}

/// The observation sees a lost update, a torn read and a guarded structure that is neither.
fn self_check() {
    let verdicts: Vec<(bool, u64)> = crate::ops::toys()
        .into_iter()
        .map(|g| {
            let k = discover(g).expect("toy");
            let mut bad = false;
            let mut n = 0;
            for p in [None, Some(0), Some(1)] {
                for (a, b) in [(0, 1), (1, 0), (0, 0)] {
                    let r = explore(&k, p, a, b, 1);
                    bad |= r.bad.is_some();
                    n += r.points;
                }
            }
            (bad, n)
        })
        .collect();
    let seen: Vec<bool> = verdicts.iter().map(|v| v.0).collect();
    assert_eq!(seen, [true, true, false, false, true], "{verdicts:?}");
}
