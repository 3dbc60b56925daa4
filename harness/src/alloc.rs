//! Counts the memory a thread holds while a closure runs.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                l.set(l.get() + n);
                PEAK.with(|p| p.set(p.get().max(l.get())));
            });
        }
    });
}

// SAFETY: hands everything on to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both may be held for a moment
        add(n as isize);
        let r = System.realloc(p, l, n);
        add(-(l.size() as isize));
        r
    }
}

/// Runs a closure and returns the most bytes it held at once.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as usize)
}
