//! Verification hook (the only addition to parking_lot 0.12.5): a callback before
//! each acquisition of a lock.
use core::sync::atomic::{AtomicUsize, Ordering};

static HOOK: AtomicUsize = AtomicUsize::new(0);

/// Installs the callback; it is told the kind of the lock (0 mutex, 1 rwlock).
pub fn set_hook(f: Option<fn(u32)>) {
    HOOK.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
}

#[inline]
pub(crate) fn call(kind: u32) {
    let h = HOOK.load(Ordering::Relaxed);
    if h != 0 {
        let f: fn(u32) = unsafe { core::mem::transmute(h) };
        f(kind);
    }
}
