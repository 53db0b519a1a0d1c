//! Cooperative scheduling of real threads: exactly one client runs at a time, and which one is
//! decided only by the schedule (a list of preemptions), never by the operating system.
//!
//! A client that waits for a lock another client holds is passed over until that one is free (see
//! futex.rs), so code that locks is simulated too. Should one sleep in the kernel for any other
//! reason, that is noticed and it is passed over until it wakes up.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Site {
    Pull,
    Conv,
    Drop,
    Display,
    Sink,
    Alloc,
    Step,
    Branch,
}

struct State {
    /// Who holds the baton; `usize::MAX`: nobody (all done).
    current: usize,
    done: Vec<bool>,
    /// Waits for something other than the baton.
    blocked: Vec<bool>,
    /// The address of the lock a client waits for.
    lock: Vec<usize>,
    tids: Vec<i32>,
    /// All threads have been started.
    ready: bool,
    /// (step, client) in increasing order of step; `next` is the first one not yet due.
    preempts: Vec<(u64, usize)>,
    next: usize,
    step: u64,
    fired: u64,
    by_site: [u64; 8],
    handed_over: u64,
    lock_waits: u64,
}

unsafe extern "C" {
    fn gettid() -> i32;
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
/// The step at which the next preemption is due, to keep the common path cheap.
static NEXT_DUE: AtomicU64 = AtomicU64::new(u64::MAX);
static FINE: AtomicBool = AtomicBool::new(false);
/// Branches since anything else happened: past the limit, a client waits for another one in a loop.
static SPIN: AtomicU64 = AtomicU64::new(0);
const SPIN_MAX: u64 = 1 << 20;
static STEP: AtomicU64 = AtomicU64::new(0);
/// Same as `State::current`, readable without the lock.
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static STATE: Mutex<State> = Mutex::new(State {
    current: usize::MAX,
    done: Vec::new(),
    blocked: Vec::new(),
    lock: Vec::new(),
    tids: Vec::new(),
    ready: false,
    preempts: Vec::new(),
    next: 0,
    step: 0,
    fired: 0,
    by_site: [0; 8],
    handed_over: 0,
    lock_waits: 0,
});
static WAKE: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static ALONE: Cell<bool> = const { Cell::new(false) };
    static WAITING: Cell<bool> = const { Cell::new(false) };
}

/// Which clients are in here: if one sleeps, then only for the lock on `STATE`, and not for long.
static WITHIN: [AtomicBool; 64] = [const { AtomicBool::new(false) }; 64];
fn within(me: usize, x: bool) {
    if let Some(w) = WITHIN.get(me) {
        w.store(x, SeqCst);
    }
}
fn enter(me: usize) -> bool {
    let was = INSIDE.replace(true);
    if !was {
        within(me, true);
    }
    !was
}
fn leave(me: usize) {
    within(me, false);
    INSIDE.set(false);
}

/// Is this thread inside the scheduler (so that what it asks of libc is not the code under test)?
pub fn inside() -> bool {
    WAITING.try_with(Cell::get).unwrap_or(true) || INSIDE.try_with(Cell::get).unwrap_or(true)
}

pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    /// Preemptions that switched to another client.
    pub fired: u64,
    pub by_site: [u64; 8],
    /// Times a client was found blocked on another one and passed over.
    pub handed_over: u64,
    /// Times a client had to wait for a lock another one holds.
    pub lock_waits: u64,
}

impl State {
    fn give(&mut self, to: usize) {
        self.current = to;
        if let Some(b) = self.blocked.get_mut(to) {
            *b = false;
        }
        CURRENT.store(to, SeqCst);
        WAKE.notify_all();
    }
    fn runnable(&self, i: usize) -> bool {
        i < self.done.len() && !self.done[i] && !self.blocked[i] && self.lock[i] == 0
    }
}

/// If that thread sleeps in the kernel (as opposed to running or being ready to run): how often it
/// has gone to sleep so far.
fn sleeps(tid: i32) -> Option<u64> {
    use std::io::Read;
    // No allocation: the code under test may hold any lock, but the allocator is not one of them.
    let mut path = [0u8; 48];
    let mut n = 0;
    for part in [&b"/proc/self/task/"[..], itoa(tid).as_ref(), b"/status"] {
        path[n..n + part.len()].copy_from_slice(part);
        n += part.len();
    }
    let mut b = [0u8; 4096];
    let k = std::fs::File::open(std::str::from_utf8(&path[..n]).ok()?).and_then(|mut f| f.read(&mut b)).ok()?;
    let text = std::str::from_utf8(&b[..k]).ok()?;
    let field = |k: &str| Some(text[text.find(k)? + k.len()..].trim_start());
    field("\nState:")?.starts_with('S').then_some(())?;
    let times = field("\nvoluntary_ctxt_switches:")?;
    times[..times.find('\n').unwrap_or(times.len())].trim().parse().ok()
}

struct Itoa([u8; 12], usize);
impl AsRef<[u8]> for Itoa {
    fn as_ref(&self) -> &[u8] {
        &self.0[self.1..]
    }
}
fn itoa(mut n: i32) -> Itoa {
    let mut o = Itoa([b'0'; 12], 12);
    loop {
        o.1 -= 1;
        o.0[o.1] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            return o;
        }
    }
}

/// Waits for the baton. Meanwhile sees to it that whoever has it is not itself stuck.
fn wait_turn(s: MutexGuard<'_, State>, me: usize) -> MutexGuard<'_, State> {
    let mut s = wait_until(s, |s| s.current == me);
    s.blocked[me] = false;
    s
}

fn wait_until<'a>(mut s: MutexGuard<'a, State>, over: impl Fn(&State) -> bool) -> MutexGuard<'a, State> {
    WAITING.set(true);
    let mut still = 0;
    let mut last = (usize::MAX, 0, 0);
    while !over(&s) {
        let (g, t) = WAKE.wait_timeout(s, Duration::from_millis(25)).unwrap();
        s = g;
        if !t.timed_out() || over(&s) {
            continue;
        }
        let c = s.current;
        let slept = if c < s.done.len() && s.tids[c] != 0 && WITHIN.get(c).is_some_and(|w| !w.load(SeqCst)) { sleeps(s.tids[c]) } else { None };
        let Some(slept) = slept else {
            still = 0;
            continue;
        };
        let now = (c, STEP.load(SeqCst), slept);
        still = if now == last { still + 1 } else { 0 };
        last = now;
        if still >= 4 {
            still = 0;
            if let Some(k) = (0..s.done.len()).find(|&k| k != c && s.runnable(k)) {
                s.blocked[c] = true;
                s.handed_over += 1;
                s.give(k);
            }
        }
    }
    WAITING.set(false);
    s
}

fn deadlock() -> ! {
    INSIDE.set(true);
    eprintln!("SIM: deadlock: every client waits for a lock");
    std::process::abort()
}

/// A client is about to wait in the kernel for the lock at `addr`. `None`: it may, `Some(false)`:
/// the lock is no longer taken.
pub fn lock_wait(addr: usize, timed: bool, free: impl Fn() -> bool) -> Option<bool> {
    let me = ME.try_with(Cell::get).unwrap_or(usize::MAX);
    if !active() || me == usize::MAX {
        if ALONE.try_with(Cell::get) == Ok(true) && !timed && !free() {
            deadlock();
        }
        return None;
    }
    if !enter(me) {
        return None;
    }
    keep(me);
    let r = if free() {
        Some(false)
    } else {
        let mut s = STATE.lock().unwrap();
        let n = s.done.len();
        let mut others = (1..n).map(|k| (me + k) % n);
        // One that sleeps for another reason may wake up and release the lock.
        let next = others.clone().find(|&k| s.runnable(k)).or_else(|| others.find(|&k| !s.done[k] && s.lock[k] == 0));
        match next {
            None if timed => None,
            None => deadlock(),
            Some(k) => {
                if !timed {
                    s.lock[me] = addr;
                }
                s.lock_waits += 1;
                s.give(k);
                let mut s = wait_turn(s, me);
                s.lock[me] = 0;
                Some(true)
            }
        }
    };
    leave(me);
    r
}

/// Clients that wait for this lock may go on. How many; `None`: not a client's.
pub fn lock_wake(addr: usize) -> Option<isize> {
    let me = ME.try_with(Cell::get).unwrap_or(usize::MAX);
    if !active() || me == usize::MAX || !enter(me) {
        return None;
    }
    let mut n = 0;
    for l in &mut STATE.lock().unwrap().lock {
        if *l == addr {
            *l = 0;
            n += 1;
        }
    }
    leave(me);
    // Someone who waits outside of the simulation may wait for it too.
    (n > 0).then_some(n)
}

/// Runs code on the only thread there is.
pub fn alone<T>(f: impl FnOnce() -> T) -> T {
    let old = ALONE.replace(true);
    let r = f();
    ALONE.set(old);
    r
}

/// Waits until this thread may run (only matters for one that was blocked meanwhile).
pub fn hold() {
    if !active() {
        return;
    }
    let me = ME.try_with(Cell::get).unwrap_or(usize::MAX);
    if me != usize::MAX && enter(me) {
        keep(me);
        leave(me);
    }
}

fn keep(me: usize) {
    if CURRENT.load(SeqCst) != me {
        let mut s = STATE.lock().unwrap();
        s.blocked[me] = false;
        drop(wait_turn(s, me));
    }
}

/// Runs the clients under the schedule. Each closure runs on its own thread.
/// `fine`: branches of the code under test count as scheduling points.
pub fn run(clients: Vec<Box<dyn FnOnce() + Send + '_>>, preempts: &[(u64, usize)], fine: bool) -> Report {
    let n = clients.len();
    {
        let mut s = STATE.lock().unwrap();
        s.current = 0;
        CURRENT.store(0, SeqCst);
        s.done = vec![false; n];
        s.blocked = vec![false; n];
        s.lock = vec![0; n];
        s.tids = vec![0; n];
        s.ready = false;
        s.preempts = preempts.to_vec();
        s.next = 0;
        s.step = 0;
        s.fired = 0;
        s.by_site = [0; 8];
        s.handed_over = 0;
        s.lock_waits = 0;
        NEXT_DUE.store(s.preempts.first().map_or(u64::MAX, |p| p.0), SeqCst);
        STEP.store(0, SeqCst);
        FINE.store(fine, SeqCst);
        SPIN.store(0, SeqCst);
    }
    ACTIVE.store(true, SeqCst);
    std::thread::scope(|scope| {
        for (i, f) in clients.into_iter().enumerate() {
            scope.spawn(move || {
                // Setting up the thread is not part of the simulation.
                crate::alloc::harness(|| {
                    within(i, true);
                    {
                        let mut s = STATE.lock().unwrap();
                        s.tids[i] = unsafe { gettid() };
                        WAKE.notify_all();
                        // Threads that start or end take locks of libc: not while one runs.
                        s = wait_until(s, |s| s.ready && s.tids.iter().all(|&t| t != 0));
                        drop(wait_turn(s, i));
                    }
                    ME.set(i);
                    within(i, false);
                    f();
                    within(i, true);
                    ME.set(usize::MAX);
                    let mut s = STATE.lock().unwrap();
                    s.done[i] = true;
                    if s.current == i {
                        let next = (0..n).find(|&k| s.runnable(k)).or_else(|| (0..n).find(|&k| !s.done[k]));
                        s.give(next.unwrap_or(usize::MAX));
                    }
                    WAKE.notify_all();
                    drop(wait_until(s, |s| s.done.iter().all(|&d| d)));
                });
            });
        }
        STATE.lock().unwrap().ready = true;
        WAKE.notify_all();
    });
    ACTIVE.store(false, SeqCst);
    let s = STATE.lock().unwrap();
    Report { steps: STEP.load(SeqCst), fired: s.fired, by_site: s.by_site, handed_over: s.handed_over, lock_waits: s.lock_waits }
}

/// A point at which another client may be scheduled.
pub fn yield_point(site: Site) {
    if !active() {
        return;
    }
    if site != Site::Branch {
        SPIN.store(0, Relaxed);
    } else if SPIN.fetch_add(1, Relaxed) < SPIN_MAX && !FINE.load(Relaxed) {
        return;
    }
    let me = ME.try_with(Cell::get).unwrap_or(usize::MAX);
    // What the scheduler itself calls may share code with the code under test.
    if me == usize::MAX || !enter(me) {
        return;
    }
    reach(me, site);
    leave(me);
}

fn reach(me: usize, site: Site) {
    keep(me);
    if SPIN.load(Relaxed) > SPIN_MAX {
        SPIN.store(0, Relaxed);
        let mut s = STATE.lock().unwrap();
        let n = s.done.len();
        if let Some(k) = (1..n).map(|k| (me + k) % n).find(|&k| s.runnable(k)) {
            s.handed_over += 1;
            s.give(k);
            drop(wait_turn(s, me));
        }
        return;
    }
    if site == Site::Branch && !FINE.load(Relaxed) {
        return;
    }
    let step = STEP.fetch_add(1, SeqCst) + 1;
    if step < NEXT_DUE.load(SeqCst) {
        return;
    }
    // Nothing below allocates.
    let mut s = STATE.lock().unwrap();
    let mut to = me;
    while let Some(&(at, c)) = s.preempts.get(s.next)
        && at <= step
    {
        s.next += 1;
        if s.runnable(c) {
            to = c;
        }
    }
    NEXT_DUE.store(s.preempts.get(s.next).map_or(u64::MAX, |p| p.0), SeqCst);
    if to != me {
        s.fired += 1;
        s.by_site[site as usize] += 1;
        s.give(to);
        drop(wait_turn(s, me));
    }
}
