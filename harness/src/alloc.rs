//! Counting allocator: per-thread live bytes, peak and biggest request, with an optional cap that
//! turns an outsized single request into an allocation failure (which panics through the hook).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
#[inline]
fn over(n: usize) -> bool {
    CAP.try_with(|c| n > c.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if over(n) {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn install_hook() {
    std::alloc::set_alloc_error_hook(|l| panic!("allocation of {} bytes refused (over the cap)", l.size()));
}

struct Restore(usize);
impl Drop for Restore {
    fn drop(&mut self) {
        CAP.with(|c| c.set(self.0))
    }
}

/// Runs `f` with single allocations capped at `cap`; returns its value and the peak of live bytes
/// allocated on this thread above the level at the start.
pub fn measured<T>(cap: usize, f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let _r = Restore(CAP.with(|c| c.replace(cap)));
    let v = f();
    let peak = PEAK.with(|p| p.get());
    (v, peak - base)
}

/// live bytes allocated by this thread (negative where it freed more than it allocated)
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// the peak of live bytes since the last call (or `measured`)
pub fn peak() -> i64 {
    PEAK.with(|p| p.replace(live()))
}
