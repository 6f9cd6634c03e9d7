//! Allocation monitor: live and peak bytes requested by the current thread, with a hard cap.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Mon;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn grow(n: usize) -> bool {
    if !ON.with(|c| c.get()) {
        return true;
    }
    let live = LIVE.with(|c| c.get()) + n as i64;
    if live > CAP.with(|c| c.get()) {
        return false;
    }
    CALLS.with(|c| c.set(c.get() + 1));
    LIVE.with(|c| c.set(live));
    PEAK.with(|c| {
        if live > c.get() {
            c.set(live)
        }
    });
    true
}

fn shrink(n: usize) {
    if ON.with(|c| c.get()) {
        LIVE.with(|c| c.set(c.get() - n as i64));
    }
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            shrink(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: u64,
    pub calls: u64,
}

/// Runs `f` while counting; requests beyond `cap` live bytes fail (which aborts the process).
pub fn measure<T>(cap: u64, f: impl FnOnce() -> T) -> (T, Usage) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(false));
        }
    }
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    CALLS.with(|c| c.set(0));
    CAP.with(|c| c.set(cap.min(i64::MAX as u64) as i64));
    ON.with(|c| c.set(true));
    let off = Off;
    let t = f();
    drop(off);
    (t, Usage { peak: PEAK.with(|c| c.get()).max(0) as u64, calls: CALLS.with(|c| c.get()) })
}
