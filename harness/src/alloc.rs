//! A global allocator that keeps books per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Books {
    pub live: i64,
    pub blocks: i64,
    pub total: u64,
    pub calls: u64,
    pub peak: i64,
}

fn add(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + bytes;
        l.set(now);
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    if bytes > 0 || blocks == 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(bytes.max(0) as u64)));
        let _ = CALLS.try_with(|t| t.set(t.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted as a new block of the new size: that is what it may cost
        add(-(l.size() as i64), -1);
        add(n as i64, 1);
        System.realloc(p, l, n)
    }
}

pub fn books() -> Books {
    Books { live: LIVE.get(), blocks: BLOCKS.get(), total: TOTAL.get(), calls: CALLS.get(), peak: PEAK.get() }
}
pub fn reset_peak() {
    PEAK.set(LIVE.get());
}
