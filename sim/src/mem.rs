//! What the process holds: every allocation of the simulator and of the system in it is counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

struct Counted;

fn count(n: i64) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static COUNTED: Counted = Counted;

/// bytes held now
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Begin to look for the most that is held.
pub fn mark() -> i64 {
    PEAK.store(live(), Relaxed);
    live()
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
