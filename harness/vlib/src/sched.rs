//! Controlled scheduler: real threads that run one at a time and hand over only at `pause`; every
//! schedule is enumerated by depth-first search over the choices.
use std::sync::{Arc, Condvar, Mutex};

struct State {
    running: usize,
    done: Vec<bool>,
    /// threads that have reached their next pause (or the start)
    choices: Vec<usize>,
    trace: Vec<(usize, usize)>, // (chosen rank, number of enabled threads)
}

pub struct Baton {
    st: Mutex<State>,
    cv: Condvar,
}

const NOBODY: usize = usize::MAX;

impl Baton {
    fn pick(st: &mut State) {
        let enabled: Vec<usize> = (0..st.done.len()).filter(|&i| !st.done[i]).collect();
        if enabled.is_empty() {
            st.running = NOBODY;
            return;
        }
        let depth = st.trace.len();
        let c = st.choices.get(depth).copied().unwrap_or(0);
        assert!(c < enabled.len(), "schedule replay diverged");
        st.trace.push((c, enabled.len()));
        st.running = enabled[c];
    }
    /// Hands over (possibly back to the caller).
    pub fn pause(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        Self::pick(&mut st);
        self.cv.notify_all();
        while st.running != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn enter(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        while st.running != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn leave(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[me] = true;
        Self::pick(&mut st);
        self.cv.notify_all();
    }
}

/// Runs the bodies under one schedule; returns their results and the choices made.
fn run_one<R: Send>(
    bodies: &[&(dyn Fn(&dyn Fn()) -> R + Sync)],
    choices: &[usize],
) -> (Vec<Result<R, String>>, Vec<(usize, usize)>) {
    let n = bodies.len();
    let baton = Arc::new(Baton {
        st: Mutex::new(State { running: NOBODY, done: vec![false; n], choices: choices.to_vec(), trace: vec![] }),
        cv: Condvar::new(),
    });
    let results = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (b, f) = (baton.clone(), bodies[i]);
                s.spawn(move || {
                    b.enter(i);
                    let r = crate::engine::no_panic(|| f(&|| b.pause(i)));
                    b.leave(i);
                    r
                })
            })
            .collect();
        {
            let mut st = baton.st.lock().unwrap();
            Baton::pick(&mut st);
            baton.cv.notify_all();
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let trace = baton.st.lock().unwrap().trace.clone();
    (results, trace)
}

/// Every schedule of the bodies; `judge` sees each execution's results and schedule. Returns the
/// number of schedules.
pub fn all_schedules<R: Send, E>(
    bodies: &[&(dyn Fn(&dyn Fn()) -> R + Sync)],
    mut judge: impl FnMut(&[Result<R, String>], &[usize]) -> Result<(), E>,
) -> Result<u64, E> {
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let (r, trace) = run_one(bodies, &prefix);
        n += 1;
        let taken: Vec<usize> = trace.iter().map(|x| x.0).collect();
        judge(&r, &taken)?;
        // next schedule in depth-first order
        let mut t = trace;
        loop {
            match t.pop() {
                None => return Ok(n),
                Some((c, k)) if c + 1 < k => {
                    prefix = t.iter().map(|x| x.0).collect();
                    prefix.push(c + 1);
                    break;
                }
                _ => {}
            }
        }
    }
}

#[test]
fn counts() {
    // two threads with two pauses each: 3 + 3 segments, C(6, 3) orders
    let f = |p: &dyn Fn()| {
        p();
        p();
        1u32
    };
    let b: &(dyn Fn(&dyn Fn()) -> u32 + Sync) = &f;
    let n = all_schedules::<u32, ()>(&[b, b], |r, _| {
        assert!(r.iter().all(|x| *x == Ok(1)));
        Ok(())
    });
    assert_eq!(n, Ok(20));
}

/// A cyclic sequence over 0..n in which every word of the given length occurs (as a window).
pub fn de_bruijn(n: usize, order: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..n {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, n, order, &mut vec![0; n * order + 1], &mut out);
    // unroll the cycle
    let w: Vec<usize> = out[..order - 1].to_vec();
    out.extend(w);
    out
}

#[test]
fn words() {
    let s = de_bruijn(5, 3);
    let w: std::collections::HashSet<&[usize]> = s.windows(3).collect();
    assert_eq!(w.len(), 125);
    assert_eq!(s.len(), 127);
}
