//! Allocator that tells how much memory a computation holds at most.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = HELD.try_with(|h| {
        let x = h.get() + n;
        h.set(x);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(x)));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static A: Counting = Counting;

/// The result and the most memory held on the way, above what was held before.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let before = HELD.with(|h| h.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - before) as usize)
}
