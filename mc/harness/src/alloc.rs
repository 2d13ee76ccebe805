//! A counting allocator: what the code under test allocates is part of what is observed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    if n > 0 {
        let _ = LARGEST.try_with(|p| p.set(p.get().max(n as usize)));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// Starts a measurement on this thread
pub fn reset() {
    PEAK.with(|p| p.set(LIVE.with(Cell::get)));
    LARGEST.with(|p| p.set(0));
    BASE.with(|b| b.set(LIVE.with(Cell::get)));
}
thread_local! {
    static BASE: Cell<isize> = const { Cell::new(0) };
}
/// Peak of live bytes since `reset`, beyond what was live then
pub fn peak() -> usize {
    (PEAK.with(Cell::get) - BASE.with(Cell::get)).max(0) as usize
}
/// Largest single allocation since `reset`
pub fn largest() -> usize {
    LARGEST.with(Cell::get)
}
