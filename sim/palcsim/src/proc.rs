//! Whole simulated processes: the real entry point with real arguments, its writes to standard
//! output and error decided by the simulator.

use crate::exec::{HELP, help_ref, world};
use crate::judge::{Class, Viol};
use crate::plan::{Plan, Render};
use clispec::model::{self, Outcome, program_name};
use clispec::spec::show_bytes;
use simrt::ctx::{self, Ctx};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn dup(a: i32) -> i32;
}

const CTL: i32 = 100;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static STUCK: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);
struct Script(UnsafeCell<Vec<i32>>);
unsafe impl Sync for Script {}
static SCRIPT: Script = Script(UnsafeCell::new(Vec::new()));

unsafe fn raw_write(fd: i32, b: *const u8, n: usize) -> isize {
    // SYS_write; sets errno.
    unsafe { syscall(1, i64::from(fd), b, n) as isize }
}

fn note(s: &str) {
    unsafe { raw_write(CTL, s.as_ptr(), s.len()) };
}

/// Decides one write of the process under simulation.
unsafe fn sim_write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd != 1 && fd != 2 {
        return unsafe { raw_write(fd, b, n) };
    }
    note(if fd == 1 { "o" } else { "w" });
    if fd == 1 {
        return unsafe { raw_write(fd, b, n) };
    }
    let script = unsafe { &*SCRIPT.0.get() };
    let fail = |e: i32, m: &str| {
        note(m);
        unsafe { *__errno_location() = e };
        -1
    };
    let mut what = script.get(AT.fetch_add(1, SeqCst)).copied();
    if let Some(x @ ..=-20) = what {
        // From here on, every write fares like this.
        AT.fetch_sub(1, SeqCst);
        what = Some(x + 20);
        if STUCK.fetch_add(1, SeqCst) == 3000 {
            note("K");
            unsafe { syscall(62, syscall(39), 9) };
        }
    }
    match what {
        None => unsafe { raw_write(fd, b, n) },
        Some(-1) => fail(4, "i"),
        Some(-2) => fail(32, "H"),
        Some(-3) => fail(28, "H"),
        Some(-4) => fail(5, "H"),
        Some(-5) => fail(11, "H"),
        Some(0) => {
            if n > 0 {
                note("H");
            }
            0
        }
        Some(k) => {
            if (k as usize) < n {
                note("s");
            }
            unsafe { raw_write(fd, b, n.min(k as usize)) }
        }
    }
}

fn note_write(fd: i32) {
    if simrt::env::inside() {
        simrt::env::effect(match fd {
            1 => "writes to standard output",
            2 => "writes to standard error",
            _ => "writes to a descriptor",
        });
    }
}

/// Takes the place of the C library's function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    note_write(fd);
    if ACTIVE.load(SeqCst) { unsafe { sim_write(fd, b, n) } } else { unsafe { raw_write(fd, b, n) } }
}

#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}

/// Takes the place of the C library's function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    note_write(fd);
    let active = ACTIVE.load(SeqCst);
    let mut total = 0isize;
    for i in 0..n {
        let x = unsafe { &*v.add(i as usize) };
        if x.len == 0 {
            continue;
        }
        let r = if active {
            unsafe { sim_write(fd, x.base, x.len) }
        } else {
            unsafe { raw_write(fd, x.base, x.len) }
        };
        if r < 0 {
            return if total > 0 { total } else { r };
        }
        total += r;
        if (r as usize) < x.len {
            break;
        }
    }
    total
}

/// What the child process does.
pub fn child(spec: &str) {
    let mut w = spec.split(' ');
    let cli: usize = w.next().unwrap().parse().unwrap();
    let conv_fail: Option<usize> = w.next().unwrap().parse().ok();
    let script: Vec<i32> = w.map(|x| x.parse().unwrap()).collect();
    let main = crate::exec::entry_only(cli).main;
    ctx::push(Box::new(Ctx { conv_fail, event_cap: usize::MAX, ..Ctx::default() }));
    unsafe { *SCRIPT.0.get() = script };
    ACTIVE.store(true, SeqCst);
    let v = main();
    ACTIVE.store(false, SeqCst);
    note(&format!("\nRET {}", v.observe().show()));
    // Whatever is still buffered appears on standard output now.
    use std::io::Write as _;
    _ = std::io::stdout().flush();
    std::process::exit(0);
}

pub struct Seen {
    pub status: Option<i32>,
    pub signal: Option<i32>,
    pub hung: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub ctl: String,
}

const ENV: [&str; 16] = [
    "COLUMNS", "LINES", "TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE",
    "POSIXLY_CORRECT", "PAGER", "PALC_HELP", "PALC_DEBUG", "HOME",
];

fn run_child(p: &Plan, convs: usize) -> Seen {
    use std::io::{Read, Seek};
    let Some(Render::Io(script)) = p.renders.first() else { panic!("no script") };
    // Defaults are not to be damaged.
    let conv = p.deliver().conv_fail.filter(|&n| n < convs);
    let mut spec = format!("{} {}", p.cli, conv.map_or("-".into(), |n| n.to_string()));
    for x in &script[1..] {
        spec += &format!(" {x}");
    }
    let closed = script[0];
    let dir = std::env::temp_dir();
    let path = dir.join(format!("palcsim-ctl-{}", std::process::id()));
    let mut ctl = std::fs::OpenOptions::new()
        .read(true)
        .append(true)
        .create(true)
        .open(&path)
        .unwrap();
    ctl.set_len(0).unwrap();
    _ = std::fs::remove_file(&path);
    let fd = std::os::fd::AsRawFd::as_raw_fd(&ctl);
    let mut c = Command::new("/proc/self/exe");
    c.arg0(std::ffi::OsStr::from_bytes(&p.items[0]));
    for a in &p.items[1..] {
        c.arg(std::ffi::OsStr::from_bytes(a));
    }
    c.env_clear().env("PALCSIM_CHILD", spec);
    // Whatever else is set must not matter.
    let mut r = clispec::rng::Rng::new(p.items.iter().fold(script.len() as u64, |h, i| clispec::rng::fnv(h, i)));
    for k in ENV {
        if r.pct(40) {
            let v: &[u8] = r.pick(&[&b""[..], b"0", b"1", b"12", b"80", b"never", b"always", b"de_DE.UTF-8", b"C", b"dumb", b"\xff"]);
            c.env(k, std::ffi::OsStr::from_bytes(v));
        }
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            crate::orch::cap_memory()?;
            // Descriptor 100 survives; the original one is closed on exec.
            if dup2(fd, CTL) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            for i in 0..3 {
                if closed & (1 << i) != 0 {
                    close(i);
                }
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("the child process");
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let pid = ch.id();
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let hung = std::sync::Arc::new(AtomicBool::new(false));
    let h2 = hung.clone();
    // Watchdog, far above what any such process needs.
    let dog = std::thread::spawn(move || {
        for _ in 0..600 {
            std::thread::park_timeout(std::time::Duration::from_millis(100));
            if d2.load(SeqCst) {
                return;
            }
        }
        h2.store(true, SeqCst);
        unsafe { syscall(62, i64::from(pid), 9) };
    });
    let mut out = Vec::new();
    let mut err = Vec::new();
    std::thread::scope(|s| {
        let t = s.spawn(|| so.read_to_end(&mut out).unwrap());
        se.read_to_end(&mut err).unwrap();
        t.join().unwrap();
    });
    let st = ch.wait().unwrap();
    done.store(true, SeqCst);
    dog.thread().unpark();
    dog.join().unwrap();
    let mut t = Vec::new();
    ctl.rewind().unwrap();
    ctl.read_to_end(&mut t).unwrap();
    Seen {
        status: st.code(),
        signal: st.signal(),
        hung: hung.load(SeqCst),
        stdout: out,
        stderr: err,
        ctl: String::from_utf8_lossy(&t).into_owned(),
    }
}

pub struct ProcRun {
    pub viols: Vec<Viol>,
    pub digest: String,
    pub shape: u64,
    pub writes: u64,
    pub nontrivial: bool,
}

pub fn run(p: &Plan, stats: &mut BTreeMap<String, u64>) -> ProcRun {
    _ = dup;
    let cmd = &world().cmds[p.cli];
    let d = p.deliver();
    let e = model::run(cmd, &p.items, d.conv_fail, HELP);
    let s = run_child(p, e.convs);
    let Some(Render::Io(script)) = p.renders.first() else { unreachable!() };
    let mut viols = Vec::new();
    let mut add = |class, msg: String| viols.push(Viol { class, msg, at: (0, 0) });
    let (marks, ret) = match s.ctl.split_once("\nRET ") {
        Some((m, r)) => (m, Some(r)),
        None => (&s.ctl[..], None),
    };
    let stuck = marks.contains('K');
    let hard = marks.contains('H');
    let mut bump = |k: &str, n: usize| {
        if n > 0 {
            *stats.entry(format!("fault {k}")).or_default() += n as u64;
        }
    };
    let soft_i = marks.matches('i').count();
    let soft_s = marks.matches('s').count();
    bump("stderr write interrupted", soft_i);
    bump("stderr short write", soft_s);
    // Which failure it was.
    for (k, c) in [(0, "stderr takes nothing"), (-2, "stderr broken pipe"), (-3, "stderr disk full"), (-4, "stderr I/O error"), (-5, "stderr would block")] {
        let reached = marks.matches('w').count().min(script.len() - 1);
        bump(c, script[1..=reached].iter().filter(|x| **x == k).count());
        bump(&format!("{c} for good"), script[1..=reached].iter().filter(|x| **x == k - 20).count());
    }
    for (b, c) in [(1, "stdin closed"), (2, "stdout closed"), (4, "stderr closed")] {
        bump(c, usize::from(script[0] & b != 0));
    }
    bump("conversion fails", usize::from(d.conv_fail.is_some_and(|n| n < e.convs)));
    let status = match (s.hung, s.signal, s.status) {
        _ if stuck => "3000 writes that all failed".to_string(),
        (true, ..) => "hung".to_string(),
        (_, Some(n), _) => format!("killed by signal {n}"),
        (_, _, Some(n)) => format!("exit status {n}"),
        _ => "no status".into(),
    };
    let err_shown = || show_bytes(&s.stderr[..s.stderr.len().min(300)]);
    let kind = match &e.outcome {
        Outcome::Ok(want) => {
            match ret {
                Some(r) if s.status == Some(0) => {
                    if r != want.show() {
                        add(Class::Result, format!("returned {r} instead of {}", want.show()));
                    }
                }
                _ => add(Class::Exit, format!("{status} ({}) instead of returning {}", err_shown(), want.show())),
            }
            if !s.stdout.is_empty() || marks.contains('o') {
                add(Class::Stdout, format!("success, but standard output received {}", show_bytes(&s.stdout)));
            }
            if !s.stderr.is_empty() || marks.contains('w') {
                add(Class::Stderr, format!("success, but standard error received {}", err_shown()));
            }
            "ok"
        }
        o => {
            let texts: Vec<String> = match o {
                Outcome::Err(v) => v.iter().map(|e| e.text.clone() + "\n").collect(),
                Outcome::Help { path, .. } => {
                    help_ref(p.cli, path, &program_name(&p.items[0])).map(|t| t + "\n").into_iter().collect()
                }
                Outcome::Ok(_) => unreachable!(),
            };
            if let Some(r) = ret {
                add(Class::Exit, format!("returned {r} instead of reporting {:?}", texts.first()));
            } else if s.status != Some(1) {
                add(if s.hung || stuck { Class::Hang } else { Class::Exit }, format!("{status} instead of exit status 1; standard error: {}", err_shown()));
            }
            if ret.is_none() && (!s.stdout.is_empty() || marks.contains('o')) {
                add(Class::Stdout, format!("standard output received {}", show_bytes(&s.stdout[..s.stdout.len().min(300)])));
            }
            let ok = texts.iter().any(|t| {
                if hard || script[0] & 4 != 0 {
                    t.as_bytes().starts_with(&s.stderr)
                } else {
                    t.as_bytes() == s.stderr
                }
            });
            if ret.is_none() && !ok {
                add(Class::Stderr, format!("standard error received {} instead of {:?}{}", err_shown(), texts.first(), if hard { " cut short" } else { "" }));
            }
            if matches!(o, Outcome::Help { .. }) { "help" } else { "error" }
        }
    };
    *stats.entry(format!("outcome {kind}")).or_default() += 1;
    let mut shape = model_shape(p.cli, &e);
    shape = clispec::rng::fnv(shape, marks.as_bytes());
    shape = clispec::rng::fnv(shape, &[script[0] as u8]);
    ProcRun {
        viols,
        digest: format!("{status} {} {} {}", s.ctl, show_bytes(&s.stdout), show_bytes(&s.stderr)),
        shape,
        writes: marks.matches('w').count() as u64,
        nontrivial: kind != "ok" || script[0] != 0,
    }
}

fn model_shape(cli: usize, e: &model::Expected) -> u64 {
    let mut h = clispec::rng::fnv(0, &(cli as u64).to_le_bytes());
    for t in &e.tags {
        h = clispec::rng::fnv(h, t.as_bytes());
    }
    if let Outcome::Err(v) = &e.outcome {
        for x in v {
            h = clispec::rng::fnv(h, &[x.kind as u8]);
        }
    }
    h
}
