//! Counts what a thread has allocated.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NOW: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = NOW.try_with(|c| {
        let v = c.get().wrapping_add(n);
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if (v as isize) > (p.get() as isize) {
                p.set(v);
            }
        });
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
fn sub(n: usize) {
    let _ = NOW.try_with(|c| c.set(c.get().wrapping_sub(n)));
}

// SAFETY: everything is passed on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

/// how much this thread has allocated now
pub fn live() -> usize {
    NOW.with(Cell::get)
}

/// how much more than before was allocated at once during `f`
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = NOW.with(Cell::get);
    PEAK.with(|p| p.set(before));
    let t = f();
    let peak = PEAK.with(Cell::get);
    (t, (peak.wrapping_sub(before) as isize).max(0) as usize)
}
