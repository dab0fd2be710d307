//! Byte slices that count how often the library looks at them, and stop it when it exceeds a limit.
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use zerocopy::{ByteSlice, SplitByteSlice};

thread_local! {
    static ACCESSES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Panic payload when one call looked at the data more often than allowed.
#[derive(Debug)]
pub struct FuelExhausted(pub u64);

fn tick() {
    ACCESSES.with(|a| {
        let n = a.get() + 1;
        a.set(n);
        LIMIT.with(|l| {
            if n > l.get() {
                l.set(u64::MAX);
                std::panic::panic_any(FuelExhausted(n));
            }
        })
    })
}

/// Runs `f` and returns how many accesses it made; panics with [`FuelExhausted`] beyond `limit`.
pub fn metered<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    ACCESSES.with(|a| a.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = f();
    LIMIT.with(|l| l.set(u64::MAX));
    (r, ACCESSES.with(|a| a.get()))
}

pub fn total() -> u64 {
    ACCESSES.with(|a| a.get())
}

#[derive(Debug)]
pub struct Mon<'a>(pub &'a [u8]);

impl Deref for Mon<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        tick();
        self.0
    }
}

// SAFETY: like &[u8]: deref always gives the same slice.
unsafe impl ByteSlice for Mon<'_> {}
unsafe impl SplitByteSlice for Mon<'_> {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at(mid);
        (Mon(a), Mon(b))
    }
}

#[derive(Debug)]
pub struct MonMut<'a>(pub &'a mut [u8]);

impl Deref for MonMut<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        tick();
        self.0
    }
}
impl DerefMut for MonMut<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        tick();
        self.0
    }
}

// SAFETY: like &mut [u8].
unsafe impl ByteSlice for MonMut<'_> {}
unsafe impl SplitByteSlice for MonMut<'_> {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at_mut(mid);
        (MonMut(a), MonMut(b))
    }
}
