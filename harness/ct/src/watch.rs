//! Requests to the Valgrind tool "flow" (tool/flow.c) this process runs under.
use std::arch::asm;
use std::cell::Cell;
use std::hint::black_box;

const RECORD: u64 = 0x4657_0000 + 1;
const COMPARE: u64 = RECORD + 1;
const STOP: u64 = RECORD + 2;

#[inline(always)]
fn request(code: u64, arg: u64) -> u64 {
    let args = [code, arg, 0, 0, 0, 0];
    let mut r = 0u64;
    unsafe {
        asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
             inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0u64 => _);
    }
    r
}

/// lengths of the reference and of this execution, position of the first difference (none: MAX),
/// the last common instruction
pub type Seen = [u64; 4];

/// Reference and comparison pass through the same call site, with the same stack.
#[inline(never)]
pub fn watched(record: bool, f: &dyn Fn()) -> Seen {
    let mut seen: Seen = [0; 4];
    let ok = request(black_box(if record { RECORD } else { COMPARE }), 0);
    assert_eq!(ok, 1, "not running under the flow tool");
    f();
    request(STOP, seen.as_mut_ptr() as u64);
    black_box(seen)
}
pub fn off() {
    let mut seen: Seen = [0; 4];
    request(STOP, seen.as_mut_ptr() as u64);
}

/// The observation sees branches and divisions that depend on data, and nothing where none does.
pub fn self_check() {
    #[inline(never)]
    fn branchy(x: &Cell<u64>) {
        if black_box(x.get()) > 5 {
            x.set(black_box(x.get()) + 1);
            black_box(x);
        }
    }
    #[inline(never)]
    fn div64(x: &Cell<u64>) {
        black_box(black_box(1000 + x.get()) / black_box(7));
    }
    #[inline(never)]
    fn div32(x: &Cell<u64>) {
        black_box(black_box(1000 + x.get() as u32) % black_box(7));
    }
    #[inline(never)]
    fn divi(x: &Cell<u64>) {
        black_box(black_box(1000i16) / black_box(x.get() as i16));
    }
    #[inline(never)]
    fn copies(x: &Cell<u64>) {
        let n = x.get() as usize * 40;
        black_box(&mut black_box([0u8; 500])[..n]).fill(1);
    }
    #[inline(never)]
    fn masking(x: &Cell<u64>) {
        x.set(black_box(x.get()) & 7 | 8);
    }
    let checks: [(fn(&Cell<u64>), bool); 6] = [(branchy, true), (div64, true), (div32, true), (divi, true), (copies, true), (masking, false)];
    let x = Cell::new(0);
    for (n, (f, sees)) in checks.into_iter().enumerate() {
        let go = |record: bool, v: u64| {
            x.set(v);
            watched(record, &|| f(&x))
        };
        go(true, 3);
        let r = go(true, 3);
        assert!(r[0] > 4);
        assert_eq!(go(false, 3)[2], u64::MAX, "two executions on the same data differ");
        assert_eq!(go(false, 9)[2] != u64::MAX, sees, "the observation of control flow is wrong ({n})");
    }
}
