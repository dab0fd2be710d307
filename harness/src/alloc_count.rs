//! Counts heap allocations per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static SUM: Cell<u64> = const { Cell::new(0) };
}

pub fn count() -> u64 {
    N.try_with(|n| n.get()).unwrap_or(0)
}

/// Bytes asked for by this thread.
pub fn bytes() -> u64 {
    SUM.try_with(|n| n.get()).unwrap_or(0)
}

fn bump(size: usize) {
    let _ = SUM.try_with(|n| n.set(n.get() + size as u64));
    let _ = N.try_with(|n| n.set(n.get() + 1));
}

// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(n);
        System.realloc(p, l, n)
    }
}
