//! Counting allocator: net and peak bytes allocated by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn add(n: i64) {
    let _ = NET.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

pub fn net() -> i64 {
    NET.with(|c| c.get())
}
/// Start measuring: returns the current net, and sets the peak to it.
pub fn start() -> i64 {
    let n = net();
    PEAK.with(|p| p.set(n));
    n
}
/// Peak since `start`, relative to it.
pub fn peak_since(n0: i64) -> i64 {
    PEAK.with(|p| p.get()) - n0
}
