//! What code under test could see of, and do to, the process around it. The symbols below take the
//! place of libc's: while code under test runs, the environment, clock, process id, terminal,
//! directory and randomness are seeded values that differ from call to call, and whatever would
//! reach outside of the process is noted. Everything else gets the real thing.
#![cfg(all(target_arch = "x86_64", target_os = "linux"))]

use clispec::rng::splitmix;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static SEED: AtomicU64 = AtomicU64::new(0);
static DRAWN: AtomicU64 = AtomicU64::new(0);

/// From here on, values follow from this seed.
pub fn seed(s: u64) {
    SEED.store(s, SeqCst);
    DRAWN.store(0, SeqCst);
}
/// How many values have been drawn.
pub fn drawn() -> u64 {
    DRAWN.load(SeqCst)
}
fn draw() -> u64 {
    let mut x = SEED.load(SeqCst).wrapping_add(DRAWN.fetch_add(1, SeqCst).wrapping_mul(0x5851_F42D_4C95_7F2D));
    splitmix(&mut x)
}

/// Is it the code under test that asks?
pub fn inside() -> bool {
    crate::alloc::is_under_test() && !crate::sched::inside()
}

/// The code under test reaches outside of the process.
pub fn effect(what: &str) {
    crate::alloc::harness(|| {
        crate::ctx::with(|c| {
            if c.effects.len() < 8 {
                c.effects.push(what.to_string());
            }
        })
    });
}

unsafe extern "C" {
    static environ: *const *const u8;
    fn dlsym(h: *const u8, n: *const u8) -> *const u8;
    fn __errno_location() -> *mut i32;
}

/// The function this one hides.
unsafe fn next(name: &[u8]) -> *const u8 {
    // RTLD_NEXT
    let p = unsafe { dlsym(usize::MAX as *const u8, name.as_ptr()) };
    if p.is_null() {
        std::process::abort();
    }
    p
}

fn raw(n: usize, a: [usize; 4]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3],
            lateout("rcx") _, lateout("r11") _, options(nostack));
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
    }
    r
}

/// Where std's hash maps get their seeds from; always from the seed, so that runs repeat.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        for b in draw().to_le_bytes() {
            if i < len {
                unsafe { *buf.add(i) = b };
                i += 1;
            }
        }
    }
    len as isize
}

unsafe fn real_getenv(name: *const u8) -> *const u8 {
    unsafe {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let (mut a, mut b) = (name, *e);
            while *a != 0 && *a == *b {
                a = a.add(1);
                b = b.add(1);
            }
            if *a == 0 && *b == b'=' {
                return b.add(1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
}

static VALUES: [&[u8]; 12] = [
    b"1\0", b"\0", b"0\0", b"20\0", b"80\0", b"never\0", b"always\0", b"true\0", b"de_DE.UTF-8\0", b"C\0", b"dumb\0",
    b"\xff\xfe\0",
];

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let own = unsafe { *name == b'R' && *name.add(1) == b'U' && *name.add(2) == b'S' && *name.add(3) == b'T' };
    if own || !inside() {
        return unsafe { real_getenv(name) };
    }
    let d = draw();
    if d & 1 == 0 { std::ptr::null() } else { VALUES[(d >> 8) as usize % VALUES.len()].as_ptr() }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if !inside() {
        return raw(228, [id as usize, ts as usize, 0, 0]) as i32;
    }
    let d = draw();
    unsafe { *ts = [(d >> 32) as i64, (d & 0x1fff_ffff) as i64] };
    0
}

#[unsafe(no_mangle)]
pub extern "C" fn getpid() -> i32 {
    if inside() { 2 + (draw() >> 40) as i32 } else { raw(39, [0; 4]) as i32 }
}

#[unsafe(no_mangle)]
pub extern "C" fn isatty(fd: i32) -> i32 {
    if inside() {
        return (draw() & 1) as i32;
    }
    let mut t = [0u8; 64];
    // TCGETS
    i32::from(raw(16, [fd as usize, 0x5401, t.as_mut_ptr() as usize, 0]) == 0)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if !inside() || buf.is_null() || n < 8 {
        type F = unsafe extern "C" fn(*mut u8, usize) -> *mut u8;
        return unsafe { std::mem::transmute::<*const u8, F>(next(b"getcwd\0"))(buf, n) };
    }
    let d = b'a' + (draw() % 26) as u8;
    unsafe { std::ptr::copy_nonoverlapping([b'/', d, d, 0].as_ptr(), buf, 4) };
    buf
}

/// The parse itself must come back; there is nobody to return to if it does not.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if inside() {
        crate::alloc::harness(|| eprintln!("SIM: the code under test ends the process with status {code}"));
        std::process::abort();
    }
    type F = unsafe extern "C" fn(i32) -> !;
    unsafe { std::mem::transmute::<*const u8, F>(next(b"exit\0"))(code) }
}

macro_rules! noted {
    ($name:ident, $sym:literal, $what:literal, ($($a:ident: $t:ty),*) -> $r:ty) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if inside() {
                effect($what);
            }
            type F = unsafe extern "C" fn($($t),*) -> $r;
            unsafe { std::mem::transmute::<*const u8, F>(next($sym))($($a),*) }
        }
    };
}
noted!(open, b"open\0", "opens a file", (p: *const u8, f: i32, m: u32) -> i32);
noted!(open64, b"open64\0", "opens a file", (p: *const u8, f: i32, m: u32) -> i32);
noted!(openat, b"openat\0", "opens a file", (d: i32, p: *const u8, f: i32, m: u32) -> i32);
noted!(openat64, b"openat64\0", "opens a file", (d: i32, p: *const u8, f: i32, m: u32) -> i32);
noted!(read, b"read\0", "reads from a descriptor", (d: i32, p: *mut u8, n: usize) -> isize);
noted!(socket, b"socket\0", "opens a socket", (d: i32, t: i32, p: i32) -> i32);
noted!(fork, b"fork\0", "starts a process", () -> i32);
noted!(setenv, b"setenv\0", "changes the environment", (n: *const u8, v: *const u8, o: i32) -> i32);
noted!(unsetenv, b"unsetenv\0", "changes the environment", (n: *const u8) -> i32);
noted!(chdir, b"chdir\0", "changes the directory", (p: *const u8) -> i32);
noted!(unlink, b"unlink\0", "removes a file", (p: *const u8) -> i32);
noted!(mkdir, b"mkdir\0", "makes a directory", (p: *const u8, m: u32) -> i32);
noted!(nanosleep, b"nanosleep\0", "sleeps", (a: *const u8, b: *mut u8) -> i32);
noted!(clock_nanosleep, b"clock_nanosleep\0", "sleeps", (c: i32, f: i32, a: *const u8, b: *mut u8) -> i32);
noted!(kill, b"kill\0", "sends a signal", (p: i32, s: i32) -> i32);
noted!(pthread_create, b"pthread_create\0", "starts a thread", (t: *mut u8, a: *const u8, f: *const u8, x: *mut u8) -> i32);
noted!(signal, b"signal\0", "changes signal handling", (s: i32, h: usize) -> usize);
noted!(sigaction, b"sigaction\0", "changes signal handling", (s: i32, a: *const u8, o: *mut u8) -> i32);
