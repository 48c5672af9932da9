//! Counting allocator: every allocation event of the process, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn tick() {
    let _ = N.try_with(|n| n.set(n.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
}
/// allocation events (alloc, realloc, free) of the calling thread so far
pub fn events() -> u64 {
    N.with(|n| n.get())
}
