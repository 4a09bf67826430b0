//! Counts the bytes each thread requests from the allocator, and reads its processor time.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
}

fn note(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
    let _ = LARGEST.try_with(|b| b.set(b.get().max(n as u64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// bytes requested while f runs, and the largest single request
pub fn bytes<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let b = BYTES.with(|b| b.get());
    LARGEST.with(|l| l.set(0));
    let r = f();
    (r, BYTES.with(|x| x.get()) - b, LARGEST.with(|l| l.get()))
}

#[repr(C)]
struct Ts {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
/// processor time of this thread in seconds
pub fn cpu() -> f64 {
    let mut t = Ts { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}
