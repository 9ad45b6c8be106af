//! Allocator: refuses absurd single allocations (so that a hostile length ends the process instead of
//! the sandbox) and remembers, per thread, the largest allocation and the net growth asked for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

static LIMIT: AtomicUsize = AtomicUsize::new(1 << 30);

/// Allows single allocations of up to `n` bytes while `f` runs.
pub fn up_to<T>(n: usize, f: impl FnOnce() -> T) -> T {
    let old = LIMIT.swap(n, Ordering::Relaxed);
    let r = f();
    LIMIT.store(old, Ordering::Relaxed);
    r
}

pub struct Alloc;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn note(n: usize, delta: isize) {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + delta);
        let _ = PEAK.try_with(|p| {
            if l.get() > p.get() {
                p.set(l.get())
            }
        });
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.size() as isize);
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, -(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.size() as isize);
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, n as isize - l.size() as isize);
        if n > LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Peak memory (bytes above the level at the start) used by this thread while running `f`.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    MAX.with(|m| m.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    let max = MAX.with(|m| m.get());
    (r, ((peak - base).max(0) as usize).max(max))
}
