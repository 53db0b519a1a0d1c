//! The code under test is built with a callback at every branch (see sim/wrap): each is a point at
//! which another client may be scheduled, and the set of those reached measures coverage.

use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU32, Ordering::Relaxed};

const MAX: usize = 1 << 20;
static HIT: [AtomicU8; MAX / 8] = [const { AtomicU8::new(0) }; MAX / 8];
static AT: AtomicPtr<AtomicU8> = AtomicPtr::new(HIT.as_ptr().cast_mut());
static NEXT: AtomicU32 = AtomicU32::new(1);

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Counts what children of this process reach as well.
#[allow(dead_code)]
pub fn share() {
    // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS
    let p = unsafe { mmap(std::ptr::null_mut(), MAX / 8, 3, 0x21, -1, 0) };
    if p as isize != -1 {
        AT.store(p.cast(), Relaxed);
    }
}

fn hit(i: usize) -> &'static AtomicU8 {
    unsafe { &*AT.load(Relaxed).add(i) }
}

/// Branches there are, as far as loaded.
pub fn total() -> u32 {
    NEXT.load(Relaxed) - 1
}

/// Those reached by this process, as hexadecimal digits of a bit set.
pub fn reached() -> String {
    let n = (NEXT.load(Relaxed) as usize).min(MAX).div_ceil(8);
    let mut s = String::with_capacity(2 * n);
    for i in 0..n {
        let b = hit(i).load(Relaxed);
        for d in [b >> 4, b & 15] {
            s.push(char::from_digit(d.into(), 16).unwrap());
        }
    }
    s
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut from: *mut u32, to: *mut u32) {
    if from == to || unsafe { *from } != 0 {
        return;
    }
    while from < to {
        unsafe {
            *from = NEXT.fetch_add(1, Relaxed);
            from = from.add(1);
        }
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let id = unsafe { *guard } as usize;
    if id < MAX {
        let (at, bit) = (id / 8, 1 << (id % 8));
        let old = hit(at).load(Relaxed);
        if old & bit == 0 {
            hit(at).store(old | bit, Relaxed);
        }
    }
    crate::alloc::note_branch();
    crate::alloc::point(crate::sched::Site::Branch);
}
