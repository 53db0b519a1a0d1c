//! The C library's memory functions, so that what the code under test copies and compares is
//! counted as work of its own.
#![cfg(all(target_arch = "x86_64", target_os = "linux"))]

use crate::alloc::note_bytes;
use std::arch::asm;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    note_bytes(n);
    unsafe {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _,
            options(nostack, preserves_flags));
    }
    to
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    note_bytes(n);
    unsafe {
        if (to as usize).wrapping_sub(from as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _,
                options(nostack, preserves_flags));
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") to.wrapping_add(n).wrapping_sub(1) => _,
                inout("rsi") from.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
    }
    to
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memset(to: *mut u8, c: i32, n: usize) -> *mut u8 {
    note_bytes(n);
    unsafe {
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") to => _, in("al") c as u8,
            options(nostack, preserves_flags));
    }
    to
}

unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
    if n == 0 {
        return 0;
    }
    let (x, y): (*const u8, *const u8);
    unsafe {
        asm!("repe cmpsb", inout("rcx") n => _, inout("rsi") a => x, inout("rdi") b => y, options(nostack, readonly));
        // One past the first difference, or past the end.
        let (p, q) = (*x.wrapping_sub(1), *y.wrapping_sub(1));
        note_bytes(x as usize - a as usize);
        i32::from(p) - i32::from(q)
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { compare(a, b, n) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { compare(a, b, n) }
}
