//! Counting allocator: live allocations, for conservation checks that do not depend on how the
//! code under test organises its tables.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
/// The most bytes held at once.
pub static PEAK: AtomicI64 = AtomicI64::new(0);

fn grown(by: i64) {
    let now = BYTES.fetch_add(by, Ordering::Relaxed) + by;
    if by > 0 && now > PEAK.load(Ordering::Relaxed) {
        PEAK.fetch_max(now, Ordering::Relaxed);
    }
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::Relaxed);
        grown(layout.size() as i64);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        BYTES.fetch_sub(layout.size() as i64, Ordering::Relaxed);
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        grown(new as i64 - layout.size() as i64);
        System.realloc(ptr, layout, new)
    }
}

pub fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}
pub fn bytes() -> i64 {
    BYTES.load(Ordering::SeqCst)
}
