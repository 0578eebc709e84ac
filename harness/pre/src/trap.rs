//! Stops a thread at each of its accesses to shared memory.
//!
//! The writable memory that threads of a programme share without being told to — its static variables,
//! and the objects handed to both (the arena) — is protected while operations run. Every access faults;
//! the handler records it, lets the scheduler hand over to the other thread, and executes the one
//! instruction with the protection lifted. Only one thread runs at a time.
//!
//! Nothing here may touch a static variable of the programme while the protection is on: all state is
//! in a block at a fixed address, and system calls are made directly.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

pub const STATE: usize = 0x6000_0000_0000;
pub const ARENA: usize = 0x6100_0000_0000;
pub const ARENA_SIZE: usize = 1 << 20;
pub const LOG: usize = 1 << 20;
pub const CELLS: usize = 1 << 14;
pub const PLAN: usize = 4;

/// In memory shared with the parent process.
#[repr(C)]
pub struct State {
    pub on: AtomicU32,
    pub nranges: usize,
    pub ranges: [(usize, usize); 8],
    /// protection of the arena: PROT_READ or PROT_NONE
    pub arena: i32,
    pub tid: [AtomicU32; 2],
    pub turn: AtomicU32,
    pub started: [AtomicU32; 2],
    pub done: [AtomicU32; 2],
    pub stepping: [AtomicU32; 2],
    /// hand over at the plan[i]-th relevant access since the last hand-over
    pub plan: [u32; PLAN],
    pub stage: AtomicU32,
    pub since: AtomicU32,
    /// points of each thread: so many of its first relevant accesses, and then every one that is in another
    /// cell or direction than the last
    pub each: u64,
    pub seen: [AtomicU64; 2],
    pub made: [AtomicU64; 2],
    pub last: [AtomicU64; 2],
    pub blocked: AtomicU32,
    /// accesses since the thread was last let go, and after how many it counts as spinning
    pub spun: [AtomicU64; 2],
    pub limit: u64,
    pub logging: u32,
    pub nlog: AtomicU64,
    pub log: [u64; LOG],
    /// a bitmap over memory cells: accesses to them matter
    pub all_cells: u32,
    pub ncells: usize,
    pub cells: [u64; CELLS],
    pub text: [u8; 2048],
    pub text_len: usize,
    pub verdict: AtomicU32,
}

pub fn st() -> &'static mut State {
    unsafe { &mut *(STATE as *mut State) }
}

#[inline(always)]
unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
fn gettid() -> u32 {
    unsafe { sys(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as u32 }
}
#[inline(always)]
fn wake(x: &AtomicU32) {
    unsafe { sys(libc::SYS_futex, x.as_ptr() as usize, libc::FUTEX_WAKE as usize, 64, 0, 0, 0) };
}
/// Waits until `*x != v` may hold or the time is over; false if it is over.
#[inline(always)]
fn wait(x: &AtomicU32, v: u32, ms: u64) -> bool {
    let t = [(ms / 1000) as i64, (ms % 1000 * 1_000_000) as i64];
    let r = unsafe { sys(libc::SYS_futex, x.as_ptr() as usize, libc::FUTEX_WAIT as usize, v as usize, t.as_ptr() as usize, 0, 0) };
    r != -(libc::ETIMEDOUT as i64)
}

#[inline(always)]
unsafe fn protect(on: bool) {
    let s = st();
    for i in 0..s.nranges {
        let (a, b) = s.ranges[i];
        let p = if !on {
            libc::PROT_READ | libc::PROT_WRITE
        } else if a == ARENA {
            s.arena
        } else {
            libc::PROT_NONE
        };
        sys(libc::SYS_mprotect, a, b - a, p as usize, 0, 0, 0);
    }
}

pub fn cell(a: usize) -> u64 {
    (a >> 6) as u64
}

#[inline(always)]
fn relevant(a: usize) -> bool {
    let s = st();
    if s.all_cells != 0 {
        return true;
    }
    let c = cell(a);
    // an access of up to 64 bytes that starts in this cell
    (0..s.ncells).any(|i| s.cells[i] == c || s.cells[i] == c + 1)
}

/// The other thread counts as blocked when it sleeps in a futex, or has not come back for so long.
const PATIENCE_MS: u64 = 3000;
const POLL_MS: u64 = 2;

/// Whether a thread of this process sleeps in a futex, other than to wait for its turn.
fn sleeps(tid: u32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/syscall\0";
    let mut t = tid;
    for k in (16..26).rev() {
        path[k] = b'0' + (t % 10) as u8;
        t /= 10;
    }
    // no leading zeros
    let skip = path[16..26].iter().take_while(|c| **c == b'0').count();
    path.copy_within(16 + skip.., 16);
    let mut b = [0u8; 18];
    unsafe {
        let f = sys(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path.as_ptr() as usize, libc::O_RDONLY as usize, 0, 0, 0);
        if f < 0 {
            return false;
        }
        sys(libc::SYS_read, f as usize, b.as_mut_ptr() as usize, 18, 0, 0, 0);
        sys(libc::SYS_close, f as usize, 0, 0, 0, 0, 0);
    }
    let mut own = *b"202 0x000000000000";
    let at = st().turn.as_ptr() as usize;
    for k in 0..12 {
        own[17 - k] = b"0123456789abcdef"[at >> (4 * k) & 15];
    }
    b[..4] == own[..4] && b != own
}

/// Hands over and waits for the turn to come back.
#[inline(always)]
fn hand_over(me: usize) {
    let s = st();
    let other = 1 - me;
    if s.done[other].load(SeqCst) != 0 {
        return;
    }
    s.since.store(0, SeqCst);
    s.spun[other].store(0, SeqCst);
    s.turn.store(other as u32, SeqCst);
    wake(&s.turn);
    let (mut waited, mut asleep) = (0, 0);
    loop {
        let t = s.turn.load(SeqCst);
        if t == me as u32 {
            return;
        }
        if !wait(&s.turn, t, POLL_MS) {
            waited += POLL_MS;
            asleep = if sleeps(s.tid[other].load(SeqCst)) { asleep + 1 } else { 0 };
            if asleep == 2 || waited >= PATIENCE_MS {
                // it waits for something this thread holds
                s.blocked.fetch_add(1, SeqCst);
                s.turn.store(me as u32, SeqCst);
                return;
            }
        }
    }
}

unsafe extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let s = st();
    let uc = ctx as *mut libc::ucontext_t;
    let a = (*info).si_addr() as usize;
    let tid = gettid();
    let me = if s.tid[0].load(SeqCst) == tid {
        0
    } else if s.tid[1].load(SeqCst) == tid {
        1
    } else {
        2
    };
    let ours = s.on.load(SeqCst) != 0 && me < 2 && (0..s.nranges).any(|i| s.ranges[i].0 <= a && a < s.ranges[i].1);
    if !ours {
        protect(false);
        libc::signal(sig, libc::SIG_DFL);
        return;
    }
    if s.stepping[me].load(SeqCst) == 0 {
        if s.logging != 0 {
            let i = s.nlog.fetch_add(1, SeqCst) as usize;
            let write = (*uc).uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
            if i < LOG {
                s.log[i] = (a as u64) << 1 | write as u64;
            }
        }
        // let go on while the other one waited for a lock: only at its turn
        loop {
            let t = s.turn.load(SeqCst);
            if t == me as u32 {
                break;
            }
            wait(&s.turn, t, 1000);
        }
        // spinning (a futex in protected memory is not slept on either): the other thread holds what it waits for
        if s.spun[me].fetch_add(1, SeqCst) > s.limit && s.started[1 - me].load(SeqCst) != 0 && s.done[1 - me].load(SeqCst) == 0 {
            s.blocked.fetch_add(1, SeqCst);
            s.spun[me].store(0, SeqCst);
            s.turn.store(1 - me as u32, SeqCst);
            wake(&s.turn);
            while s.turn.load(SeqCst) != me as u32 {
                wait(&s.turn, 1 - me as u32, 1000);
            }
        }
        let write = (*uc).uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
        let run = cell(a) << 1 | write as u64;
        if relevant(a) && {
            let n = s.made[me].fetch_add(1, SeqCst);
            let last = s.last[me].swap(run, SeqCst);
            n < s.each || last != run
        } {
            s.seen[me].fetch_add(1, SeqCst);
            let i = s.stage.load(SeqCst) as usize;
            let n = s.since.fetch_add(1, SeqCst);
            if i < PLAN && s.plan[i] == n {
                s.stage.store(i as u32 + 1, SeqCst);
                hand_over(me);
            }
        }
        s.stepping[me].store(1, SeqCst);
    }
    protect(false);
    (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
}

unsafe extern "C" fn on_step(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let s = st();
    let tid = gettid();
    let me = if s.tid[0].load(SeqCst) == tid { 0 } else { 1 };
    let uc = ctx as *mut libc::ucontext_t;
    (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    s.stepping[me].store(0, SeqCst);
    if s.on.load(SeqCst) != 0 {
        protect(true);
    }
}

pub fn install() {
    unsafe {
        let p = libc::mmap(STATE as *mut _, std::mem::size_of::<State>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        assert_eq!(p as usize, STATE);
        let p = libc::mmap(ARENA as *mut _, ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        assert_eq!(p as usize, ARENA);
        for (sig, f) in [(libc::SIGSEGV, on_fault as usize), (libc::SIGTRAP, on_step as usize)] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            assert_eq!(libc::sigaction(sig, &sa, std::ptr::null_mut()), 0);
        }
    }
    let s = st();
    s.arena = libc::PROT_READ;
    s.ranges[0] = (ARENA, ARENA + ARENA_SIZE);
    s.nranges = 1;
    // the programme's writable segments
    let exe = std::env::current_exe().unwrap();
    let exe = exe.to_str().unwrap();
    let mut end = 0;
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let named = f.get(5).copied().unwrap_or("");
        if f[1].starts_with("rw") && (named == exe || named.is_empty() && a == end) {
            s.ranges[s.nranges] = (a, b);
            s.nranges += 1;
        }
        if named == exe || a == end {
            end = b;
        }
    }
    assert!(s.nranges >= 2, "the programme's data segment was not found");
}

/// A thread's part: waits for its turn, runs, hands over for good, and returns when all is quiet.
pub fn take_part<R>(me: usize, f: impl FnOnce() -> R) -> R {
    let s = st();
    s.tid[me].store(gettid(), SeqCst);
    wake(&s.tid[me]);
    loop {
        let t = s.turn.load(SeqCst);
        if t == me as u32 {
            break;
        }
        wait(&s.turn, t, 60_000);
    }
    s.started[me].store(1, SeqCst);
    let r = f();
    s.done[me].store(1, SeqCst);
    s.since.store(0, SeqCst);
    if s.done[1 - me].load(SeqCst) == 0 {
        s.turn.store(1 - me as u32, SeqCst);
        wake(&s.turn);
        while s.on.load(SeqCst) != 0 {
            wait(&s.on, 1, 60_000);
        }
    } else {
        unsafe { protect(false) };
        s.on.store(0, SeqCst);
        wake(&s.on);
    }
    r
}

/// Waits for both threads to be there, then lets thread 0 go under protection until all is quiet.
pub fn conduct() {
    let s = st();
    for t in &s.tid {
        while t.load(SeqCst) == 0 {
            wait(t, 0, 1000);
        }
    }
    s.on.store(1, SeqCst);
    unsafe { protect(true) };
    s.turn.store(0, SeqCst);
    wake(&s.turn);
    while s.on.load(SeqCst) != 0 {
        wait(&s.on, 1, 60_000);
    }
}

/// Before each run.
pub fn reset() {
    let s = st();
    s.on.store(0, SeqCst);
    s.turn.store(9, SeqCst);
    s.stage.store(0, SeqCst);
    s.since.store(0, SeqCst);
    s.blocked.store(0, SeqCst);
    s.nlog.store(0, SeqCst);
    s.verdict.store(0, SeqCst);
    s.text_len = 0;
    for i in 0..2 {
        s.tid[i].store(0, SeqCst);
        s.started[i].store(0, SeqCst);
        s.spun[i].store(0, SeqCst);
        s.done[i].store(0, SeqCst);
        s.stepping[i].store(0, SeqCst);
        s.seen[i].store(0, SeqCst);
        s.made[i].store(0, SeqCst);
        s.last[i].store(0, SeqCst);
    }
}

/// Moves an object into the arena.
pub fn place<T: 'static>(x: T) -> &'static T {
    static USED: AtomicU64 = AtomicU64::new(0);
    let align = std::mem::align_of::<T>().max(64) as u64;
    let n = (std::mem::size_of::<T>() as u64).div_ceil(align) * align;
    let at = USED.fetch_add(n, SeqCst);
    assert!(align <= 64 && at + n <= ARENA_SIZE as u64);
    let p = (ARENA + at as usize) as *mut T;
    unsafe {
        p.write(x);
        &*p
    }
}
