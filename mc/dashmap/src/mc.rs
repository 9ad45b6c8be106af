//! Added by /verif: makes this copy of dashmap visible to the model checker.
//! Lock acquisitions are scheduling points, spinning is reported, hashing is deterministic; the harness can make
//! all keys collide in one shard.
use core::sync::atomic::{AtomicUsize, Ordering};
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hasher};

static POINT: AtomicUsize = AtomicUsize::new(0);
static SPIN: AtomicUsize = AtomicUsize::new(0);
static RELEASED: AtomicUsize = AtomicUsize::new(0);

thread_local! { static COLLIDE: core::cell::Cell<bool> = core::cell::Cell::new(false); }

/// Maps created by this thread from now on put every key into the same shard.
pub fn set_collide(on: bool) {
    COLLIDE.with(|c| c.set(on))
}

pub fn collide() -> bool {
    COLLIDE.with(|c| c.get())
}

#[derive(Clone, Debug)]
pub struct RandomState {
    collide: bool,
}

impl RandomState {
    pub fn new() -> Self {
        Self::default()
    }
}

impl Default for RandomState {
    fn default() -> Self {
        RandomState { collide: collide() }
    }
}

pub struct McHasher {
    inner: DefaultHasher,
    collide: bool,
    rooted: bool,
}

/// Path component below which the names are the same for every worker of the explorer.
pub const ROOT: &str = "mcroot";

impl Hasher for McHasher {
    fn finish(&self) -> u64 {
        let h = self.inner.finish();
        if self.collide {
            h & ((1 << 40) - 1)
        } else {
            h
        }
    }
    fn write(&mut self, bytes: &[u8]) {
        if bytes == ROOT.as_bytes() {
            self.inner = DefaultHasher::new();
            self.rooted = true;
        } else {
            self.inner.write(bytes)
        }
    }
    fn write_usize(&mut self, n: usize) {
        // a path also hashes the lengths of its components, including those above the root
        if !self.rooted {
            self.inner.write_usize(n)
        }
    }
}

impl BuildHasher for RandomState {
    type Hasher = McHasher;
    fn build_hasher(&self) -> McHasher {
        McHasher {
            inner: DefaultHasher::new(),
            collide: self.collide,
            rooted: false,
        }
    }
}

pub fn set_hooks(point: fn(), spin: fn(), released: fn()) {
    RELEASED.store(released as usize, Ordering::SeqCst);
    POINT.store(point as usize, Ordering::SeqCst);
    SPIN.store(spin as usize, Ordering::SeqCst);
}

pub(crate) fn shard_amount() -> usize {
    4
}

pub(crate) fn point() {
    let f = POINT.load(Ordering::Relaxed);
    if f != 0 {
        let f: fn() = unsafe { core::mem::transmute(f) };
        f()
    }
}

/// A lock was released: whoever spins on it may go on.
pub(crate) fn released() {
    let f = RELEASED.load(Ordering::Relaxed);
    if f != 0 {
        let f: fn() = unsafe { core::mem::transmute(f) };
        f()
    }
}

pub(crate) fn spin() {
    let f = SPIN.load(Ordering::Relaxed);
    if f != 0 {
        let f: fn() = unsafe { core::mem::transmute(f) };
        f()
    } else {
        std::thread::yield_now()
    }
}
