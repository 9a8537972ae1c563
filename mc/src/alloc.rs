//! A counting allocator: refuses allocations beyond a per-case limit, so that "memory out of
//! proportion to the input" shows up as a failed allocation in the case that caused it.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static CUR: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn charge(n: usize) -> bool {
    let cur = CUR.load(Relaxed);
    if n > LIMIT.load(Relaxed).saturating_sub(cur) {
        return false;
    }
    CUR.store(cur + n, Relaxed);
    true
}

fn refund(n: usize) {
    CUR.store(CUR.load(Relaxed).wrapping_sub(n), Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        refund(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !charge(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            refund(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// Run `f` with at most `extra` bytes of live allocations on top of the current ones.
pub fn limited<R>(extra: usize, f: impl FnOnce() -> R) -> R {
    let old = LIMIT.swap(CUR.load(Relaxed).saturating_add(extra), Relaxed);
    struct Restore(usize);
    impl Drop for Restore {
        fn drop(&mut self) {
            LIMIT.store(self.0, Relaxed);
        }
    }
    let _restore = Restore(old);
    f()
}
