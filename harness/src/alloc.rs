//! Allocator that refuses requests beyond a per-thread budget while a guard is active, so that memory use out of
//! proportion to the input shows up as an allocation failure (the process aborts; the supervisor confirms the case).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Guarded;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
}

fn admit(size: usize) -> bool {
    LIMIT
        .try_with(|l| {
            let limit = l.get();
            if limit == usize::MAX {
                return true;
            }
            LIVE.with(|v| {
                let n = v.get().saturating_add(size);
                if n > limit {
                    false
                } else {
                    v.set(n);
                    true
                }
            })
        })
        .unwrap_or(true)
}

fn release(size: usize) {
    let _ = LIMIT.try_with(|l| {
        if l.get() != usize::MAX {
            LIVE.with(|v| v.set(v.get().saturating_sub(size)));
        }
    });
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if admit(l.size()) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if admit(l.size()) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && !admit(new - l.size()) {
            return std::ptr::null_mut();
        }
        if new < l.size() {
            release(l.size() - new);
        }
        System.realloc(p, l, new)
    }
}

/// From here on this thread may hold at most `bytes` of newly allocated memory.
pub fn guard(bytes: usize) {
    LIVE.with(|v| v.set(0));
    LIMIT.with(|l| l.set(bytes));
}

pub fn unguard() {
    LIMIT.with(|l| l.set(usize::MAX));
}

/// Runs f under a memory budget.
pub fn guarded<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    guard(bytes);
    let r = f();
    unguard();
    r
}
