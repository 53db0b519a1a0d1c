//! What the macros could see of the process around them, replaced by seeded values.
//! The symbols below take the place of libc's in this program.

use clispec::rng::splitmix;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

thread_local! {
    static IN_MACRO: Cell<bool> = const { Cell::new(false) };
}
static SEED: AtomicU64 = AtomicU64::new(0);
static DRAWN: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
pub static ENV_CALLS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);

pub fn seed(s: u64) {
    SEED.store(s, SeqCst);
    DRAWN.store(0, SeqCst);
}
fn draw() -> u64 {
    let mut x = SEED.load(SeqCst).wrapping_add(DRAWN.fetch_add(1, SeqCst).wrapping_mul(0x5851_F42D_4C95_7F2D));
    splitmix(&mut x)
}

/// Runs macro code: only it sees the seeded environment and clock.
pub fn in_macro<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_MACRO.set(false);
        }
    }
    IN_MACRO.set(true);
    let _r = Reset;
    f()
}
fn inside() -> bool {
    IN_MACRO.try_with(Cell::get).unwrap_or(false) && !crate::sched::inside()
}

/// Where std's hash maps get their seeds from.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    RANDOM_CALLS.fetch_add(1, SeqCst);
    let mut i = 0;
    while i < len {
        let w = draw().to_le_bytes();
        for b in w {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
    len as isize
}

unsafe extern "C" {
    static environ: *const *const u8;
    fn syscall(n: i64, ...) -> i64;
}

unsafe fn real_getenv(name: *const u8) -> *const u8 {
    unsafe {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let (mut a, mut b) = (name, *e);
            while *a != 0 && *a == *b {
                a = a.add(1);
                b = b.add(1);
            }
            if *a == 0 && *b == b'=' {
                return b.add(1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
}

static VALUES: [&[u8]; 6] = [b"palcsim-0\0", b"1\0", b"\0", b"x86_64\0", b"/nonexistent\0", b"0.0.1\0"];

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let rust = unsafe { *name == b'R' && *name.add(1) == b'U' };
    if !inside() || rust {
        return unsafe { real_getenv(name) };
    }
    ENV_CALLS.fetch_add(1, SeqCst);
    let d = draw();
    if d & 1 == 0 { std::ptr::null() } else { VALUES[(d >> 8) as usize % VALUES.len()].as_ptr() }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if !inside() {
        // 228: clock_gettime on x86-64, 113 on aarch64.
        let nr = if cfg!(target_arch = "aarch64") { 113 } else { 228 };
        return unsafe { syscall(nr, i64::from(id), ts) as i32 };
    }
    CLOCK_CALLS.fetch_add(1, SeqCst);
    let d = draw();
    unsafe { *ts = [(d >> 32) as i64, (d & 0x1fff_ffff) as i64] };
    0
}

#[unsafe(no_mangle)]
pub extern "C" fn getpid() -> i32 {
    if inside() { 2 + (draw() >> 40) as i32 } else { unsafe { syscall(if cfg!(target_arch = "aarch64") { 172 } else { 39 }) as i32 } }
}
