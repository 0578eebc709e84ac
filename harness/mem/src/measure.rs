//! What an operation takes from the heap and from the stack.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;

thread_local! {
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
fn count() {
    let _ = TAKEN.try_with(|t| t.set(t.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub struct Use {
    pub allocations: u64,
    pub stack: usize,
}

/// How much stack is painted before an operation; more than any should need.
const PAINTED: usize = 1 << 20;
const PAINT: u64 = 0xa5c3_96e1_5a3c_691e;
/// What `measure` keeps for itself beneath its stack pointer.
const OWN: usize = 512;

#[inline(always)]
fn sp() -> usize {
    let s: usize;
    unsafe { asm!("mov {}, rsp", out(reg) s, options(nomem, nostack, preserves_flags)) };
    s & !7
}

/// Runs `f` in a part of the stack painted beforehand. The words written since tell its depth.
#[inline(never)]
pub fn measure(f: &mut dyn FnMut()) -> Use {
    let top = sp() - OWN;
    let mut p = top;
    while p > top - PAINTED {
        p -= 8;
        unsafe { (p as *mut u64).write_volatile(PAINT) };
    }
    let before = TAKEN.get();
    f();
    let allocations = TAKEN.get() - before;
    let mut p = top - PAINTED;
    while p < top && unsafe { (p as *const u64).read_volatile() } == PAINT {
        p += 8;
    }
    Use { allocations, stack: top - p }
}

pub fn self_check() {
    #[inline(never)]
    fn deep(n: u32) -> u64 {
        let mut a = [n as u64; 64];
        std::hint::black_box(&mut a);
        if n > 0 { a[3] + deep(n - 1) + std::hint::black_box(a[5]) } else { a[7] }
    }
    let flat = measure(&mut || {
        std::hint::black_box(deep(0));
    });
    let low = measure(&mut || {
        std::hint::black_box(deep(3));
    });
    assert!(flat.allocations == 0 && low.stack >= flat.stack + 3 * 512 && low.stack < flat.stack + 3 * 1024, "the stack is not observed: {} {}", flat.stack, low.stack);
    let heap = measure(&mut || {
        std::hint::black_box(Box::new(5u64));
    });
    assert!(heap.allocations == 1, "the heap is not observed");
    let again = measure(&mut || {
        std::hint::black_box(deep(3));
    });
    assert!(again.stack == low.stack, "measurements do not repeat");
}
