//! Allocation accounting: what a history allocated is released when the history ends.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}
fn add(b: i64, n: i64) {
    let _ = BYTES.try_with(|x| x.set(x.get() + b));
    let _ = BLOCKS.try_with(|x| x.set(x.get() + n));
    let _ = EVENTS.try_with(|x| x.set(x.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
/// (bytes, blocks, allocator calls) of this thread
pub fn level() -> (i64, i64, u64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()), EVENTS.with(|b| b.get()))
}
