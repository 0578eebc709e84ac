//! Ways an object can end, and what they leave in the memory the object occupied.
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::mem::{ManuallyDrop, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr;
use std::rc::Rc;
use std::sync::Arc;

const MAX: usize = 1 << 17;
thread_local! {
    static WATCHED: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static SEEN: Cell<bool> = const { Cell::new(false) };
    static SNAPSHOT: UnsafeCell<[u8; MAX]> = const { UnsafeCell::new([0; MAX]) };
}

extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
    fn malloc_usable_size(p: *mut u8) -> usize;
}

// The programme keeps Rust's default allocator, so that the compiler knows as much about freeing as
// it does in a user's programme (in particular that stores to memory about to be freed are dead);
// underneath it, the C library's functions are replaced by these.

#[no_mangle]
unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    let p = __libc_malloc(n);
    if !p.is_null() && n <= MAX {
        ptr::write_bytes(p, 0xa5, n);
    }
    p
}

/// Keeps a copy of the watched block as it is when it is given back.
#[no_mangle]
unsafe extern "C" fn free(p: *mut u8) {
    let (at, n) = WATCHED.get();
    let from = p as usize;
    if n > 0 && from <= at && at + n <= from + malloc_usable_size(p) {
        SNAPSHOT.with(|s| {
            for i in 0..n {
                (*s.get())[i] = ptr::read_volatile((at + i) as *const u8);
            }
        });
        SEEN.set(true);
        WATCHED.set((0, 0));
    }
    __libc_free(p)
}

fn watch<T>(p: *const T, n: usize) {
    let bytes = n * size_of::<T>();
    assert!(bytes > 0 && bytes <= MAX);
    SEEN.set(false);
    WATCHED.set((p as usize, bytes));
}
fn snapshot<T>(n: usize) -> Vec<u8> {
    assert!(SEEN.get(), "the watched block was not freed");
    SNAPSHOT.with(|s| unsafe { (&(*s.get()))[..n * size_of::<T>()].to_vec() })
}
fn bytes_at<T>(p: *const T) -> Vec<u8> {
    (0..size_of::<T>()).map(|i| unsafe { ptr::read_volatile((p as *const u8).add(i)) }).collect()
}

/// Storage of our own, so that it can be read after the object in it has ended.
pub struct Slot<T>(Box<MaybeUninit<T>>);
impl<T> Slot<T> {
    pub fn new(x: T) -> Self {
        let mut b = Box::new(MaybeUninit::<T>::uninit());
        unsafe { ptr::write_bytes(b.as_mut_ptr(), 0xa5, 1) };
        b.write(x);
        Slot(b)
    }
    pub fn get(&self) -> &T {
        unsafe { self.0.assume_init_ref() }
    }
    pub fn get_mut(&mut self) -> &mut T {
        unsafe { self.0.assume_init_mut() }
    }
    fn p(&self) -> *mut T {
        self.0.as_ptr() as *mut T
    }
}

pub struct Way<T: 'static> {
    pub name: &'static str,
    /// (make, history, something else of the type) -> what is left
    #[allow(clippy::type_complexity)]
    pub run: fn(&dyn Fn() -> T, &dyn Fn(&T), &dyn Fn() -> T) -> Vec<u8>,
}

struct Bomb;
struct Holder<T> {
    _before: u32,
    field: T,
    _after: Vec<u8>,
}

fn unwinding<T>(x: Box<T>, history: &dyn Fn(&T)) {
    history(&x);
    std::panic::panic_any(Bomb);
}

pub fn ways<T: 'static>() -> Vec<Way<T>> {
    vec![
        Way { name: "dropped in place", run: |make, h, _| {
            let s = Slot::new(make());
            h(s.get());
            unsafe { ptr::drop_in_place(s.p()) };
            bytes_at(s.p())
        } },
        Way { name: "ManuallyDrop::drop", run: |make, h, _| {
            let mut s = Slot::new(ManuallyDrop::new(make()));
            h(s.get());
            unsafe { ManuallyDrop::drop(s.get_mut()) };
            bytes_at(s.p())
        } },
        Way { name: "Box dropped", run: |make, h, _| {
            let b = Box::new(make());
            h(&b);
            watch(&*b, 1);
            drop(b);
            snapshot::<T>(1)
        } },
        Way { name: "Box<dyn Any> dropped", run: |make, h, _| {
            let b = Box::new(make());
            h(&b);
            watch(&*b, 1);
            let d: Box<dyn Any> = b;
            drop(std::hint::black_box(d));
            snapshot::<T>(1)
        } },
        Way { name: "Vec dropped", run: |make, h, other| {
            let mut v = Vec::with_capacity(3);
            v.push(make());
            v.push(other());
            v.push(make());
            h(&v[0]);
            h(&v[2]);
            watch(v.as_ptr(), 3);
            drop(v);
            snapshot::<T>(3)
        } },
        Way { name: "Vec truncated", run: |make, h, other| {
            let mut v = Vec::with_capacity(2);
            v.push(other());
            v.push(make());
            h(&v[1]);
            let p = unsafe { v.as_ptr().add(1) };
            v.truncate(1);
            std::hint::black_box(&v);
            bytes_at(p)
        } },
        Way { name: "Rc dropped, last of two", run: |make, h, _| {
            let a = Rc::new(make());
            let b = a.clone();
            h(&a);
            drop(a);
            h(&b);
            watch(&*b, 1);
            drop(b);
            snapshot::<T>(1)
        } },
        Way { name: "Option set to None", run: |make, h, _| {
            let mut s = Slot::new(Some(make()));
            h(s.get().as_ref().unwrap());
            let p = s.get().as_ref().unwrap() as *const T;
            *s.get_mut() = None;
            std::hint::black_box(s.get_mut());
            bytes_at(p)
        } },
        Way { name: "assigned over", run: |make, h, other| {
            let mut s = Slot::new(make());
            h(s.get());
            *s.get_mut() = other();
            let r = bytes_at(s.p());
            unsafe { ptr::drop_in_place(s.p()) };
            r
        } },
        Way { name: "field of a dropped struct", run: |make, h, _| {
            let b = Box::new(Holder { _before: 7, field: make(), _after: vec![1, 2, 3] });
            h(&b.field);
            watch(&b.field, 1);
            drop(b);
            snapshot::<T>(1)
        } },
        Way { name: "unwinding", run: |make, h, _| {
            let b = Box::new(make());
            watch(&*b, 1);
            let r = catch_unwind(AssertUnwindSafe(|| unwinding(b, h)));
            if let Err(e) = r {
                if !e.is::<Bomb>() {
                    std::panic::resume_unwind(e);
                }
            }
            snapshot::<T>(1)
        } },
    ]
}

/// Ways that need more of the type.
pub fn sent<T: Send + Sync + 'static>() -> Vec<Way<T>> {
    vec![
        Way { name: "dropped in another thread", run: |make, h, _| {
            let b = Box::new(make());
            h(&b);
            std::thread::spawn(move || {
                watch(&*b, 1);
                drop(b);
                snapshot::<T>(1)
            })
            .join()
            .unwrap()
        } },
        Way { name: "Arc dropped in another thread, last of two", run: |make, h, _| {
            let a = Arc::new(make());
            let b = a.clone();
            h(&a);
            drop(a);
            std::thread::spawn(move || {
                watch(&*b, 1);
                drop(b);
                snapshot::<T>(1)
            })
            .join()
            .unwrap()
        } },
    ]
}

pub fn cloned<T: Clone + 'static>() -> Vec<Way<T>> {
    vec![
        Way { name: "clone, original dropped first", run: |make, h, _| {
            let a = Slot::new(make());
            let b = Slot::new(a.get().clone());
            h(a.get());
            unsafe { ptr::drop_in_place(a.p()) };
            let mut r = bytes_at(a.p());
            h(b.get());
            unsafe { ptr::drop_in_place(b.p()) };
            r.extend(bytes_at(b.p()));
            r.extend(bytes_at(a.p()));
            r
        } },
        Way { name: "clone dropped first", run: |make, h, _| {
            let a = Slot::new(make());
            let b = Slot::new(a.get().clone());
            h(b.get());
            unsafe { ptr::drop_in_place(b.p()) };
            let mut r = bytes_at(b.p());
            h(a.get());
            unsafe { ptr::drop_in_place(a.p()) };
            r.extend(bytes_at(a.p()));
            r.extend(bytes_at(b.p()));
            r
        } },
        Way { name: "cloned over (clone_from)", run: |make, h, other| {
            let mut a = Slot::new(make());
            h(a.get());
            let o = Slot::new(other());
            a.get_mut().clone_from(o.get());
            let r = bytes_at(a.p());
            unsafe { ptr::drop_in_place(a.p()) };
            unsafe { ptr::drop_in_place(o.p()) };
            r
        } },
    ]
}

pub fn zeroized<T: zeroize::Zeroize + 'static>() -> Vec<Way<T>> {
    vec![
        Way { name: "zeroized in place", run: |make, h, _| {
            let mut a = Slot::new(make());
            h(a.get());
            a.get_mut().zeroize();
            let r = bytes_at(a.p());
            unsafe { ptr::drop_in_place(a.p()) };
            r
        } },
        Way { name: "zeroized, used, zeroized and dropped", run: |make, h, _| {
            let mut a = Slot::new(make());
            h(a.get());
            a.get_mut().zeroize();
            h(a.get());
            a.get_mut().zeroize();
            let mut r = bytes_at(a.p());
            unsafe { ptr::drop_in_place(a.p()) };
            r.extend(bytes_at(a.p()));
            r
        } },
        Way { name: "zeroized, then Box dropped", run: |make, h, _| {
            let mut a = Box::new(make());
            h(&a);
            a.zeroize();
            watch(&*a, 1);
            drop(a);
            snapshot::<T>(1)
        } },
    ]
}

/// Self-check of the observation: a type that does not erase itself is seen.
pub fn self_check() {
    #[derive(Clone)]
    struct Plain([u8; 64]);
    let mut n = 0;
    for w in ways::<Plain>().into_iter().chain(sent::<Plain>()).chain(cloned::<Plain>()) {
        let left = |x: u8| (w.run)(&|| Plain(std::hint::black_box([x; 64])), &|p| { std::hint::black_box(p.0[0]); }, &|| Plain([9; 64]));
        if w.name != "assigned over" && w.name != "cloned over (clone_from)" {
            assert!(left(1) != left(2), "the observation is blind: {}", w.name);
            n += 1;
        }
    }
    assert!(n >= 12);
}
