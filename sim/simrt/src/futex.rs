//! Locks of the code under test. std's locks end in the `syscall` function of libc, which the one
//! below replaces: a client that would wait in the kernel is passed over by the scheduler instead,
//! so which client gets a lock is decided by the schedule, and a deadlock is seen at once.
#![cfg(all(target_arch = "x86_64", target_os = "linux"))]

use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const SYS_FUTEX: usize = 202;
const EAGAIN: isize = 11;

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn raw(n: usize, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

fn said(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 };
        return -1;
    }
    r
}

#[unsafe(no_mangle)]
unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX {
        match b & 0x7f {
            // Wait, wait with a bit set. `d`: until when.
            0 | 9 => {
                let free = || unsafe { &*(a as *const AtomicU32) }.load(SeqCst) != c as u32;
                match crate::sched::lock_wait(a, d != 0, free) {
                    Some(true) => return 0,
                    Some(false) => return said(-EAGAIN),
                    None => {}
                }
            }
            // Wake.
            1 | 10 => {
                if let Some(n) = crate::sched::lock_wake(a) {
                    return n;
                }
            }
            _ => {}
        }
    }
    said(unsafe { raw(n, [a, b, c, d, e, f]) })
}
