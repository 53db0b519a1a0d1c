//! Per-parse context: event log, faults to inject, and the ledger of probe values.

use crate::alloc::harness;
use crate::sched::{Site, yield_point};
use clispec::spec::Ty;
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Event {
    Pull(usize),
    PullEnd,
    /// Requested something after the end was reported (and got argument `n`, or nothing).
    PullAfterEnd(Option<usize>),
    Conv(Ty, Vec<u8>),
    /// The lower-precedence conversion of a type with two conversions was used.
    WrongConv(Ty, Vec<u8>),
    /// A default's `Display` was called.
    Display(Vec<u8>),
    SizeHint,
    /// An item became an argument.
    Into(usize),
}

#[derive(Default)]
pub struct Ctx {
    pub id: u32,
    pub events: Vec<Event>,
    pub convs: usize,
    pub displays: usize,
    pub conv_fail: Option<usize>,
    /// Fail the n-th default's formatting after this many bytes.
    pub disp_fail: Option<(usize, usize)>,
    pub conv_fault_fired: bool,
    pub disp_fault_fired: Option<(Vec<u8>, usize)>,
    /// Call the nested hook at these event numbers.
    pub nested: Vec<(usize, usize)>,
    pub nested_fired: usize,
    /// Opaque pointer handed to the nested hook.
    pub user: usize,
    pub event_cap: usize,
    /// What the code under test did to the world outside.
    pub effects: Vec<String>,
}

thread_local! {
    static STACK: RefCell<Vec<Box<Ctx>>> = const { RefCell::new(Vec::new()) };
    static ERR_FAIL: Cell<Option<usize>> = const { Cell::new(None) };
    static ERR_FAIL_FIRED: Cell<bool> = const { Cell::new(false) };
}

pub type NestedHook = fn(user: usize, which: usize);
static NESTED: std::sync::OnceLock<NestedHook> = std::sync::OnceLock::new();
pub fn set_nested_hook(h: NestedHook) {
    _ = NESTED.set(h);
}

pub fn push(c: Box<Ctx>) {
    STACK.with(|s| s.borrow_mut().push(c));
}
pub fn pop() -> Box<Ctx> {
    STACK.with(|s| s.borrow_mut().pop().unwrap())
}
pub fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    STACK.with(|s| s.borrow_mut().last_mut().map(|c| f(c)))
}

/// Makes probe errors fail to render after `n` bytes, on this thread.
pub fn set_err_fail(n: Option<usize>) {
    ERR_FAIL.set(n);
    ERR_FAIL_FIRED.set(false);
}
pub fn err_fail() -> Option<usize> {
    ERR_FAIL.get()
}
pub fn err_fail_fired() -> bool {
    ERR_FAIL_FIRED.get()
}
pub(crate) fn note_err_fail() {
    ERR_FAIL_FIRED.set(true);
}

/// Records an event, lets other clients run, and runs a nested parse if one is due here.
pub fn event(e: Event, site: Site) {
    crate::sched::hold();
    harness(|| {
        let due = with(|c| {
            assert!(c.events.len() < c.event_cap, "SIM: event limit exceeded");
            c.events.push(e);
            let n = c.events.len() - 1;
            c.nested.iter().find(|x| x.0 == n).map(|x| {
                c.nested_fired += 1;
                (c.user, x.1)
            })
        })
        .flatten();
        if let (Some((user, which)), Some(h)) = (due, NESTED.get()) {
            h(user, which);
        }
    });
    yield_point(site);
}

// ---- Ledger of probe values ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    Live,
    Dropped,
    DroppedTwice,
}

pub struct Entry {
    pub ctx: u32,
    pub slot: Slot,
    pub seen: u32,
    /// An error value rather than a converted one.
    pub is_err: bool,
}

struct Ledger(std::cell::UnsafeCell<Vec<Entry>>);
// Only the client holding the baton touches it.
unsafe impl Sync for Ledger {}
static LEDGER: Ledger = Ledger(std::cell::UnsafeCell::new(Vec::new()));

#[allow(clippy::mut_from_ref)]
pub fn ledger() -> &'static mut Vec<Entry> {
    unsafe { &mut *LEDGER.0.get() }
}

pub fn ledger_reset() {
    harness(|| {
        let l = ledger();
        l.clear();
        l.reserve(1 << 12);
    });
}

pub fn born(is_err: bool) -> u32 {
    crate::sched::hold();
    harness(|| {
        let ctx = with(|c| c.id).unwrap_or(u32::MAX);
        let l = ledger();
        l.push(Entry { ctx, slot: Slot::Live, seen: 0, is_err });
        (l.len() - 1) as u32
    })
}

pub fn died(id: u32) {
    crate::sched::hold();
    if let Some(e) = ledger().get_mut(id as usize) {
        e.slot = match e.slot {
            Slot::Live => Slot::Dropped,
            _ => Slot::DroppedTwice,
        };
    }
    yield_point(Site::Drop);
}
