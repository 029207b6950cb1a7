//! Poisoning allocator: every byte handed out (and every byte a reallocation adds) carries the
//! current thread's pattern, so "uninitialised" never happens to look like zero.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static PATTERN: Cell<u8> = const { Cell::new(0xA7) }; }

pub fn set_pattern(b: u8) {
    PATTERN.with(|p| p.set(b));
}
fn pat() -> u8 {
    PATTERN.try_with(|p| p.get()).unwrap_or(0xA7)
}

pub struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, pat(), l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0xDD, l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() && new > l.size() {
            std::ptr::write_bytes(q.add(l.size()), pat(), new - l.size());
        }
        q
    }
}
