//! Counting allocator: live and peak bytes per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// A single thread never needs this much; fail the allocation instead of the sandbox.
const CAP: isize = 3 << 29;
/// Zeroed memory of this size is the explorer's own huge input, which takes no memory as long as it is only read.
const HUGE: usize = 1 << 31;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < HUGE {
            add(-(l.size() as isize));
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() < HUGE && !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() >= HUGE || !add(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > CAP {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    let v = live();
    PEAK.with(|p| p.set(v));
}
pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
