//! Executes steps against the real parser and records what was observed.

use crate::plan::{Case, Delivery, Plan, Render, Step};
use clispec::model::{self, Expected, Outcome};
use clispec::spec::{Cmd, Obs};
use simrt::alloc::{Work, harness, live, under_test, work};
use simrt::ctx::{self, Ctx, Event, Slot};
use simrt::sched::{self, Site};
use simrt::{Entry, Source};
use std::cell::RefCell;
use std::collections::HashMap;
use std::error::Error as _;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const HELP: bool = cfg!(feature = "help");
pub const SENTINEL: &str = "\u{1}@ARGV0@\u{1}";

pub struct World {
    pub cmds: Vec<Cmd>,
    /// `None`: left out of this build.
    pub entries: Vec<Option<Entry>>,
    pub available: Vec<usize>,
    /// Reference help texts, obtained in pristine processes.
    refs: Mutex<HashMap<(usize, Vec<usize>), Option<String>>>,
}

static WORLD: std::sync::OnceLock<World> = std::sync::OnceLock::new();

pub fn world() -> &'static World {
    WORLD.get_or_init(|| {
        let (seed, count) = crate::defs();
        let cmds = clispec::defgen::all(seed, count);
        let mut entries = vec![None; count];
        for (i, e) in [gen0::ENTRIES, gen1::ENTRIES, gen2::ENTRIES, gen3::ENTRIES, gen4::ENTRIES, gen5::ENTRIES]
            .into_iter()
            .flatten()
        {
            entries[*i] = Some(*e);
        }
        let available = (0..count).filter(|&i| entries[i].is_some()).collect();
        World { cmds, entries, available, refs: Mutex::default() }
    })
}

/// The arguments that ask for help of the command at `path`, if it can be asked for.
pub fn help_request(cmd: &Cmd, path: &[usize], argv0: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut args = vec![argv0.to_vec()];
    let mut c = cmd;
    for &i in path {
        let v = &c.sub()?.variants[i];
        args.push(v.name.clone().into_bytes());
        c = &v.cmd;
    }
    for ask in ["--help", "-h"] {
        let mut a = args.clone();
        a.push(ask.into());
        if let Outcome::Help { path: p, .. } = model::run(cmd, &a, None, true).outcome
            && p == path
        {
            return Some(a);
        }
    }
    None
}

pub fn load_refs(text: &str) {
    let mut m = world().refs.lock().unwrap();
    for l in text.lines() {
        let mut w = l.split(' ');
        let cli = w.next().unwrap().parse().unwrap();
        let path = parse_path(w.next().unwrap());
        let v = w.next().unwrap();
        let v = (v != "-").then(|| {
            let b: Vec<u8> = (0..v.len())
                .step_by(2)
                .map(|i| u8::from_str_radix(&v[i..i + 2], 16).unwrap())
                .collect();
            String::from_utf8(b).unwrap()
        });
        m.insert((cli, path), v);
    }
}

pub fn path_text(p: &[usize]) -> String {
    let v: Vec<String> = p.iter().map(usize::to_string).collect();
    format!("p{}", v.join("."))
}
pub fn parse_path(s: &str) -> Vec<usize> {
    s[1..].split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// The only thing a fresh process does: render this command's help.
pub fn pristine_help(cli: usize, path: &[usize]) -> Option<String> {
    let cmd = &world().cmds[cli];
    let req = help_request(cmd, path, SENTINEL.as_bytes())?;
    let n = req.len();
    ctx::push(Box::new(Ctx { event_cap: usize::MAX, ..Ctx::default() }));
    let src = Source::new(req, n, false, simrt::source::Hint::Honest);
    let ret = (world().entries[cli]?.parse)(src).err()?.try_into_help().ok();
    ctx::pop();
    ret
}

pub fn entry_only(cli: usize) -> Entry {
    let shards = [gen0::ENTRIES, gen1::ENTRIES, gen2::ENTRIES, gen3::ENTRIES, gen4::ENTRIES, gen5::ENTRIES];
    shards.into_iter().flatten().find(|e| e.0 == cli).unwrap().1
}

/// Help text for `path`, as a fresh process renders it, for this program name.
pub fn help_ref(cli: usize, path: &[usize], program: &str) -> Option<String> {
    let key = (cli, path.to_vec());
    let cached = world().refs.lock().unwrap().get(&key).cloned();
    let text = match cached {
        Some(t) => t,
        None => {
            let t = crate::orch::spawn_help_ref(cli, path);
            world().refs.lock().unwrap().insert(key, t.clone());
            t
        }
    };
    text.map(|t| t.replace(SENTINEL, program))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SeenOut {
    Ok(Obs),
    Err { source: Option<String>, probe: Option<usize> },
    Panicked(String),
}

#[derive(Clone, Debug)]
pub struct RenderSeen {
    pub op: Render,
    pub got: Vec<u8>,
    pub ok: bool,
    /// The writer was called again after it had reported failure.
    pub wrote_after: bool,
    /// The injected formatting failure was reached.
    pub fired: bool,
}

#[derive(Debug)]
pub struct RunSeen {
    pub plan: Plan,
    pub expected: Expected,
    pub events: Vec<Event>,
    pub out: SeenOut,
    pub renders: Vec<RenderSeen>,
    /// Complete text of the error, rendered last.
    pub text: Option<String>,
    /// Help text obtained by consuming the error.
    pub help: Option<String>,
    pub ledger: Vec<String>,
    pub leak: (i64, i64),
    /// The error was handed to another client, so the memory is not back yet.
    pub kept: bool,
    /// Rendering the error panicked.
    pub render_panic: Option<String>,
    pub nested: Vec<RunSeen>,
    pub conv_fault_fired: bool,
    pub disp_fault: Option<(Vec<u8>, usize)>,
    pub effective: Vec<&'static str>,
    pub delivered: usize,
    pub items: Vec<Vec<u8>>,
    /// What was done to the world outside.
    pub effects: Vec<String>,
    /// What it cost, without the harness and nested parses.
    pub work: Work,
}

#[derive(Debug)]
pub enum StepSeen {
    Run(Box<RunSeen>),
    Take {
        from: (usize, usize),
        renders: Vec<RenderSeen>,
        text: Option<String>,
        help: Option<String>,
        render_panic: Option<String>,
    },
    /// There was nothing to take (yet).
    Nothing,
}

pub struct CaseSeen {
    pub steps: Vec<Vec<StepSeen>>,
    pub sched: sched::Report,
    /// Ledger problems that only show at the end of the case.
    pub ledger: Vec<String>,
}

struct NestCtx<'a> {
    plans: &'a [(usize, Plan)],
    seen: RefCell<Vec<RunSeen>>,
}

fn nested_hook(user: usize, which: usize) {
    let n = unsafe { &*(user as *const NestCtx<'_>) };
    let seen = exec_run(&n.plans[which].1, false).0;
    n.seen.borrow_mut().push(seen);
}

pub fn init() {
    ctx::set_nested_hook(nested_hook);
}

static NEXT_ID: AtomicU32 = AtomicU32::new(0);

struct FmtSink {
    got: Vec<u8>,
    at: usize,
    take: bool,
    failed: bool,
    wrote_after: bool,
}
impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        harness(|| {
            if self.failed {
                self.wrote_after = true;
                return Err(std::fmt::Error);
            }
            if self.got.len() + s.len() > self.at {
                if self.take {
                    let n = self.at - self.got.len();
                    self.got.extend(&s.as_bytes()[..n]);
                }
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.got.extend(s.as_bytes());
            Ok(())
        })?;
        sched::yield_point(Site::Sink);
        Ok(())
    }
}

struct IoSink<'a> {
    got: Vec<u8>,
    script: &'a [i32],
    at: usize,
    failed: bool,
    wrote_after: bool,
}
impl std::io::Write for IoSink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sched::yield_point(Site::Sink);
        harness(|| {
            if self.failed {
                self.wrote_after = true;
            }
            let n = match self.script.get(self.at) {
                None => b.len(),
                Some(-1) => {
                    self.at += 1;
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                Some(-2) => {
                    self.at += 1;
                    self.failed = true;
                    return Err(std::io::ErrorKind::BrokenPipe.into());
                }
                Some(0) => {
                    self.at += 1;
                    self.failed = !b.is_empty();
                    0
                }
                Some(&n) => {
                    self.at += 1;
                    (n as usize).min(b.len())
                }
            };
            self.got.extend(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Renders; may consume the error. Must run as code under test.
fn render(err: palc::Error, op: &Render) -> (Option<palc::Error>, RenderSeen, Option<String>) {
    let mut seen = harness(|| RenderSeen {
        op: op.clone(),
        got: vec![],
        ok: true,
        wrote_after: false,
        fired: false,
    });
    let mut help = None;
    let mut err = Some(err);
    match op {
        Render::Full => {
            let s = err.as_ref().unwrap().to_string();
            seen.got = harness(|| s.clone().into_bytes());
        }
        Render::Debug => {
            let s = format!("{:?}", err.as_ref().unwrap());
            seen.got = harness(|| s.clone().into_bytes());
        }
        Render::Source => {
            if let Some(s) = err.as_ref().unwrap().source() {
                let s = s.to_string();
                seen.got = harness(|| s.clone().into_bytes());
            }
        }
        Render::FmtFail { at, take }
        | Render::DebugFail { at, take }
        | Render::Custom { at, take } => {
            let mut sink =
                FmtSink { got: vec![], at: *at, take: *take, failed: false, wrote_after: false };
            let e = err.as_ref().unwrap();
            seen.ok = match op {
                Render::FmtFail { .. } => write!(sink, "{e}").is_ok(),
                Render::DebugFail { .. } => write!(sink, "{e:?}").is_ok(),
                _ => {
                    let own = palc::Error::custom(e.to_string());
                    let ok = write!(sink, "{own}").is_ok();
                    // It is no help, whatever it says, and stays what it is.
                    match own.try_into_help() {
                        Ok(_) => sink.wrote_after = true,
                        Err(own) => {
                            let again = own.to_string();
                            let source = own.source().map(ToString::to_string);
                            if again != e.to_string() || source.as_ref() != Some(&again) {
                                sink.wrote_after = true;
                            }
                        }
                    }
                    ok
                }
            };
            seen.fired = sink.failed;
            seen.wrote_after = sink.wrote_after;
            seen.got = sink.got;
        }
        Render::Io(script) => {
            let mut sink =
                IoSink { got: vec![], script, at: 0, failed: false, wrote_after: false };
            seen.ok = write!(sink, "{}", err.as_ref().unwrap()).is_ok();
            seen.fired = sink.at > 0;
            seen.wrote_after = sink.wrote_after;
            seen.got = sink.got;
        }
        Render::ErrFail(n) | Render::DebugErrFail(n) => {
            ctx::set_err_fail(Some(*n));
            let mut s = String::new();
            let e = err.as_ref().unwrap();
            seen.ok = match op {
                Render::ErrFail(_) => write!(s, "{e}").is_ok(),
                _ => write!(s, "{e:?}").is_ok(),
            };
            seen.fired = ctx::err_fail_fired();
            ctx::set_err_fail(None);
            seen.got = harness(|| s.clone().into_bytes());
        }
        Render::IntoHelp => match err.take().unwrap().try_into_help() {
            Ok(h) => {
                seen.got = harness(|| h.clone().into_bytes());
                help = Some(harness(|| h.clone()));
            }
            Err(e) => {
                seen.ok = false;
                err = Some(e);
            }
        },
    }
    (err, seen, help)
}

#[derive(Default)]
struct Rendered {
    renders: Vec<RenderSeen>,
    text: Option<String>,
    help: Option<String>,
    panicked: Option<String>,
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    harness(|| {
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        std::mem::forget(p);
        msg
    })
}

fn render_all(err: palc::Error, ops: &[Render], consume: bool) -> (Option<palc::Error>, Rendered) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        render_each(err, ops, consume)
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            ctx::set_err_fail(None);
            let panicked = Some(panic_text(p));
            (None, Rendered { panicked, ..Default::default() })
        }
    }
}

fn render_each(err: palc::Error, ops: &[Render], consume: bool) -> (Option<palc::Error>, Rendered) {
    let mut r = harness(|| Rendered { renders: Vec::with_capacity(ops.len()), ..Default::default() });
    let mut cur = Some(err);
    for op in ops {
        let Some(e) = cur.take() else { break };
        let (back, seen, help) = render(e, op);
        harness(|| {
            r.renders.push(seen);
            if help.is_some() {
                r.help = help;
            }
        });
        cur = back;
    }
    if let Some(e) = &cur {
        let s = e.to_string();
        r.text = Some(harness(|| s.clone()));
        drop(s);
        // Is it a request for help?
        if consume {
            match cur.take().unwrap().try_into_help() {
                Ok(h) => r.help = Some(harness(|| h.clone())),
                Err(e) => cur = Some(e),
            }
        }
    }
    (cur, r)
}

fn ledger_check(id: u32, after_drop: bool, ok: bool, out: &mut Vec<String>) {
    for (i, e) in ctx::ledger().iter().enumerate() {
        if e.ctx != id {
            continue;
        }
        let what = if e.is_err { "error value" } else { "value" };
        if e.slot == Slot::DroppedTwice {
            out.push(format!("{what} #{i} dropped twice"));
        }
        if after_drop {
            if e.slot == Slot::Live {
                out.push(format!("{what} #{i} still alive after everything was dropped"));
            }
        } else if !e.is_err {
            match (ok, e.slot, e.seen) {
                (true, Slot::Live, 1) | (_, Slot::Dropped, 0) => {}
                (true, Slot::Live, n) => {
                    out.push(format!("{what} #{i} appears {n} times in the result"));
                }
                (false, Slot::Live, _) => {
                    out.push(format!("{what} #{i} still alive after the parse failed"));
                }
                (_, _, n) => out.push(format!("{what} #{i} dropped but seen {n} times")),
            }
        }
    }
}

/// Runs one parse. Must be called from harness code.
pub fn exec_run(plan: &Plan, keep: bool) -> (RunSeen, Option<palc::Error>) {
    let w = world();
    let d: Delivery = plan.deliver();
    let cmd = &w.cmds[plan.cli];
    let expected = model::run(cmd, d.delivered(), d.conv_fail, HELP);
    let nest = NestCtx { plans: &plan.nested, seen: RefCell::default() };
    let id = NEXT_ID.fetch_add(1, SeqCst);
    let c = Box::new(Ctx {
        id,
        conv_fail: d.conv_fail.filter(|&n| n < expected.convs),
        disp_fail: d.disp_fail,
        nested: plan.nested.iter().enumerate().map(|(k, n)| (n.0, k)).collect(),
        user: &raw const nest as usize,
        event_cap: 4096 + 16 * d.items.iter().map(|i| 1 + i.len()).sum::<usize>(),
        ..Ctx::default()
    });
    ctx::push(c);
    let mut ledger = Vec::new();
    let entry = w.entries[plan.cli].expect("a definition that was built").parse;

    let w0 = work();
    let (out, rendered, kept, leak, ok) = under_test(|| {
        let l0 = live();
        let src = Source::new(d.items.clone(), d.end, d.resume, d.hint);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entry(src)));
        let (out, rendered, kept, ok) = match res {
            Ok(Ok(v)) => {
                let obs = harness(|| v.observe());
                harness(|| ledger_check(id, false, true, &mut ledger));
                drop(v);
                (SeenOut::Ok(obs), Rendered::default(), None, true)
            }
            Ok(Err(e)) => {
                harness(|| ledger_check(id, false, false, &mut ledger));
                let (source, probe) = harness(|| {
                    let s = e.source();
                    (
                        s.map(|s| {
                            let mut t = String::new();
                            _ = write!(t, "{s}");
                            t
                        }),
                        s.and_then(|s| s.downcast_ref::<simrt::vals::PErr>()).map(|p| p.n),
                    )
                });
                let (back, r) = render_all(e, &plan.renders, !keep);
                let back = if keep {
                    back
                } else {
                    drop(back);
                    None
                };
                let ok = r.panicked.is_none();
                (SeenOut::Err { source, probe }, r, back, ok)
            }
            Err(p) => (SeenOut::Panicked(panic_text(p)), Rendered::default(), None, false),
        };
        let l1 = live();
        (out, rendered, kept, (l1.0 - l0.0, l1.1 - l0.1), ok)
    });
    let w1 = work();
    if ok && kept.is_none() {
        ledger_check(id, true, true, &mut ledger);
    }
    ledger.sort();
    ledger.dedup();
    let c = ctx::pop();
    let seen = RunSeen {
        expected,
        events: c.events,
        out,
        renders: rendered.renders,
        text: rendered.text,
        help: rendered.help,
        ledger,
        leak,
        kept: kept.is_some(),
        render_panic: rendered.panicked,
        nested: nest.seen.into_inner(),
        conv_fault_fired: c.conv_fault_fired,
        disp_fault: c.disp_fault_fired,
        effective: d.effective.clone(),
        delivered: d.end,
        items: d.items,
        effects: c.effects,
        work: Work {
            branches: w1.branches - w0.branches,
            moved: w1.moved - w0.moved,
            allocated: w1.allocated - w0.allocated,
        },
        plan: plan.clone(),
    };
    (seen, kept)
}

struct Mail(Mutex<HashMap<(usize, usize), palc::Error>>);

fn exec_client(me: usize, steps: &[Step], mail: &Mail, wanted: &[(usize, usize)]) -> Vec<StepSeen> {
    let mut out = Vec::with_capacity(steps.len());
    for (k, s) in steps.iter().enumerate() {
        let seen = match s {
            Step::Run(p) => {
                let keep = wanted.contains(&(me, k));
                let (seen, err) = exec_run(p, keep);
                if let Some(e) = err {
                    mail.0.lock().unwrap().insert((me, k), e);
                }
                StepSeen::Run(Box::new(seen))
            }
            Step::Take { client, step, renders } => {
                let e = mail.0.lock().unwrap().remove(&(*client, *step));
                match e {
                    None => StepSeen::Nothing,
                    Some(e) => {
                        let r = under_test(|| {
                            let (back, r) = render_all(e, renders, true);
                            drop(back);
                            r
                        });
                        StepSeen::Take {
                            from: (*client, *step),
                            renders: r.renders,
                            text: r.text,
                            help: r.help,
                            render_panic: r.panicked,
                        }
                    }
                }
            }
        };
        out.push(seen);
        under_test(|| sched::yield_point(Site::Step));
    }
    out
}

pub fn exec_case(case: &Case) -> CaseSeen {
    harness(|| {
        ctx::ledger_reset();
        simrt::env::seed(case.plans().flat_map(|p| &p.items).fold(0, |h, i| clispec::rng::fnv(h, i)));
        let mail = Mail(Mutex::default());
        let wanted: Vec<(usize, usize)> = case
            .clients
            .iter()
            .flatten()
            .filter_map(|s| match s {
                Step::Take { client, step, .. } => Some((*client, *step)),
                _ => None,
            })
            .collect();
        let mut seen = if case.clients.len() == 1 {
            CaseSeen {
                steps: vec![sched::alone(|| exec_client(0, &case.clients[0], &mail, &wanted))],
                sched: sched::Report::default(),
                ledger: vec![],
            }
        } else {
            let slots: Vec<Mutex<Vec<StepSeen>>> =
                case.clients.iter().map(|_| Mutex::default()).collect();
            let report = sched::run(
                case.clients
                    .iter()
                    .enumerate()
                    .map(|(i, steps)| {
                        let (mail, slots, wanted) = (&mail, &slots, &wanted);
                        Box::new(move || {
                            let s = exec_client(i, steps, mail, wanted);
                            *slots[i].lock().unwrap() = s;
                        }) as Box<dyn FnOnce() + Send + '_>
                    })
                    .collect(),
                &case.preempts,
                case.fine,
            );
            CaseSeen {
                steps: slots.into_iter().map(|s| s.into_inner().unwrap()).collect(),
                sched: report,
                ledger: vec![],
            }
        };
        under_test(|| drop(mail));
        for (i, e) in ctx::ledger().iter().enumerate() {
            let what = if e.is_err { "error value" } else { "value" };
            match e.slot {
                Slot::Live => seen.ledger.push(format!("{what} #{i} alive at the end")),
                Slot::DroppedTwice => seen.ledger.push(format!("{what} #{i} dropped twice")),
                Slot::Dropped => {}
            }
        }
        seen
    })
}
