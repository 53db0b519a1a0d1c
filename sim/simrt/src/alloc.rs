//! The process allocator: counts live bytes and blocks per thread and offers every allocation
//! made by the code under test to the scheduler as a possible preemption point.

use crate::sched::Site;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static UNDER: Cell<bool> = const { Cell::new(false) };
    static HARNESS: Cell<u32> = const { Cell::new(0) };
    static EXCLUDED: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static BRANCHES: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// What the code under test has spent on this thread.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Work {
    /// Branches passed.
    pub branches: u64,
    /// Bytes copied, filled or compared.
    pub moved: u64,
    /// Bytes asked of the allocator.
    pub allocated: u64,
}

#[allow(dead_code)]
pub fn work() -> Work {
    Work { branches: BRANCHES.with(Cell::get), moved: BYTES.with(Cell::get), allocated: ASKED.with(Cell::get) }
}
#[inline]
pub fn note_branch() {
    if is_under_test() {
        BRANCHES.set(BRANCHES.get() + 1);
    }
}
#[inline]
#[allow(dead_code)]
pub fn note_bytes(n: usize) {
    if is_under_test() {
        BYTES.set(BYTES.get() + n as u64);
    }
}
fn note_asked(n: usize) {
    if is_under_test() {
        ASKED.set(ASKED.get() + n as u64);
    }
}

fn add(bytes: i64, blocks: i64) {
    _ = LIVE.try_with(|l| {
        let (a, b) = l.get();
        l.set((a + bytes, b + blocks));
    });
}

/// Live (bytes, blocks) of this thread, without what the harness itself allocated.
pub fn live() -> (i64, i64) {
    let (a, b) = LIVE.with(Cell::get);
    let (x, y) = EXCLUDED.with(Cell::get);
    (a - x, b - y)
}

/// Runs harness code on behalf of the simulation: what it allocates is not charged to the code
/// under test, and it is never preempted.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let outer = HARNESS.with(|h| {
        let n = h.get();
        h.set(n + 1);
        n
    });
    let before = LIVE.with(Cell::get);
    let ret = f();
    if outer == 0 {
        let after = LIVE.with(Cell::get);
        EXCLUDED.with(|e| {
            let (x, y) = e.get();
            e.set((x + after.0 - before.0, y + after.1 - before.1));
        });
    }
    HARNESS.with(|h| h.set(outer));
    ret
}

/// Runs code under test from within harness code (a nested parse).
pub fn under_test<T>(f: impl FnOnce() -> T) -> T {
    // The nested run does its own accounting; for the surrounding run all of it is harness.
    let outer = HARNESS.with(|h| h.replace(0));
    assert!(outer > 0);
    let under = UNDER.replace(true);
    let ex = EXCLUDED.with(Cell::get);
    let ret = f();
    UNDER.set(under);
    EXCLUDED.with(|e| e.set(ex));
    HARNESS.with(|h| h.set(outer));
    ret
}

/// Is this thread running code under test right now?
#[inline]
pub fn is_under_test() -> bool {
    UNDER.try_with(Cell::get) == Ok(true) && HARNESS.try_with(Cell::get) == Ok(0)
}

/// A point inside the code under test at which another client may be scheduled.
#[inline]
pub fn point(site: Site) {
    if crate::sched::active() && HARNESS.try_with(Cell::get) == Ok(0) {
        crate::sched::yield_point(site);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(Site::Alloc);
        add(l.size() as i64, 1);
        note_asked(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point(Site::Alloc);
        add(l.size() as i64, 1);
        note_asked(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point(Site::Alloc);
        add(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point(Site::Alloc);
        add(n as i64 - l.size() as i64, 0);
        note_asked(n);
        unsafe { System.realloc(p, l, n) }
    }
}
