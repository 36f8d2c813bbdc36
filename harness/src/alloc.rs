//! Allocator which counts what the current thread holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCATIONS: Cell<u64> = const { Cell::new(0) };
}

fn add(bytes: i64, blocks: i64) {
    BYTES.with(|c| c.set(c.get() + bytes));
    BLOCKS.with(|c| c.set(c.get() + blocks));
    if blocks > 0 {
        ALLOCATIONS.with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            add(layout.size() as i64, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        if !p.is_null() {
            add(layout.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        System.dealloc(p, layout);
        add(-(layout.size() as i64), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, layout, size);
        if !q.is_null() {
            add(size as i64 - layout.size() as i64, 0);
        }
        q
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Held {
    pub bytes: i64,
    pub blocks: i64,
}

/// What the current thread has allocated and not freed.
pub fn held() -> Held {
    Held { bytes: BYTES.with(|c| c.get()), blocks: BLOCKS.with(|c| c.get()) }
}

/// How many allocations the current thread has made.
pub fn allocations() -> u64 {
    ALLOCATIONS.with(|c| c.get())
}
