//! Simulates a long-lived macro server: many definitions, good and bad, expanded by palc's macros
//! on several threads under a seeded schedule, with seeded hash maps, environment and clock. Every
//! expansion must be the one a pristine process makes of the same definition.

#[path = "../../sim/simrt/src/alloc.rs"]
mod alloc;
mod case;
mod contra;
#[path = "../../sim/simrt/src/cov.rs"]
mod cov;
mod defs;
mod env;
mod expand;
#[path = "../../sim/simrt/src/futex.rs"]
mod futex;
#[allow(dead_code)]
#[path = "../../sim/simrt/src/sched.rs"]
mod sched;

use case::Case;
use clispec::rng::fnv;
use expand::{Def, Expect, Outcome};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

unsafe extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn poll(p: *mut [i32; 2], n: u64, ms: i32) -> i32;
    fn alarm(s: u32) -> u32;
}

pub enum Ended {
    Said(String),
    Died(String),
    Hung,
}

/// Runs `f` in a process of its own, forked off this (pristine) one.
fn forked(limit: Duration, f: impl FnOnce() -> String) -> Ended {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(pipe(p.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(p[0]);
            // Should the parent die.
            alarm(limit.as_secs() as u32 + 60);
            let mut w = std::fs::File::from_raw_fd(p[1]);
            let s = f();
            let ok = w.write_all(s.as_bytes()).is_ok();
            _exit(if ok { 0 } else { 3 });
        }
        close(p[1]);
        let mut r = std::fs::File::from_raw_fd(p[0]);
        let t = Instant::now();
        let mut out = Vec::new();
        let mut hung = false;
        loop {
            let left = limit.saturating_sub(t.elapsed()).as_millis().max(500) as i32;
            // struct pollfd { int fd; short events; short revents; }
            let mut pf = [p[0], 1];
            let n = poll(&mut pf, 1, left);
            if n == 0 {
                // A busy machine is not the code's fault.
                if t.elapsed() < limit || (cpu(pid) < limit.as_secs() * 50 && t.elapsed() < limit * 5) {
                    continue;
                }
                hung = true;
                kill(pid, 9);
                break;
            }
            if n < 0 {
                continue;
            }
            let mut b = [0u8; 1 << 16];
            match r.read(&mut b) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&b[..n]),
                Err(_) => {}
            }
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if hung {
            return Ended::Hung;
        }
        if st != 0 {
            return Ended::Died(if st & 0x7f != 0 { format!("killed by signal {}", st & 0x7f) } else { format!("exit status {}", st >> 8) });
        }
        Ended::Said(String::from_utf8_lossy(&out).into_owned())
    }
}

/// Processor time of a child, in hundredths of a second.
fn cpu(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit_once(')').map_or("", |x| x.1);
    rest.split_whitespace().skip(11).take(2).filter_map(|x| x.parse::<u64>().ok()).sum()
}

const LIMIT: Duration = Duration::from_secs(60);

#[derive(Clone, Debug)]
pub enum Ref {
    Ok(Outcome, u64),
    Died(String),
    Hung,
}

/// What a pristine process makes of the definition.
fn pristine(d: &Def, text: bool) -> Ref {
    let r = forked(LIMIT, || {
        env::seed(0);
        let res = Mutex::new(String::new());
        let rep = sched::run(vec![Box::new(|| *res.lock().unwrap() = expand::expand(d, text).line())], &[], true);
        format!("{}steps {}\n", res.into_inner().unwrap(), rep.steps)
    });
    match r {
        Ended::Said(s) => {
            let o = s.lines().next().and_then(Outcome::parse);
            let n = s.lines().find_map(|l| l.strip_prefix("steps ")).and_then(|n| n.parse().ok());
            match (o, n) {
                (Some(o), Some(n)) => Ref::Ok(o, n),
                _ => Ref::Died(format!("garbled: {s:?}")),
            }
        }
        Ended::Died(s) => Ref::Died(s),
        Ended::Hung => Ref::Hung,
    }
}

#[derive(Default, Debug)]
pub struct Seen {
    pub outcomes: Vec<(usize, usize, Outcome)>,
    pub rep: sched::Report,
    pub randoms: u64,
    pub envs: u64,
    pub clocks: u64,
}

fn server(c: &Case, text: bool) -> Result<Seen, Ref> {
    let r = forked(LIMIT, || {
        env::seed(c.seed);
        let n0 = env::RANDOM_CALLS.load(std::sync::atomic::Ordering::SeqCst);
        let res = Mutex::new(String::new());
        let clients = c
            .clients
            .iter()
            .enumerate()
            .map(|(i, list)| {
                let res = &res;
                Box::new(move || {
                    for (k, &d) in list.iter().enumerate() {
                        let o = expand::expand(&c.defs[d], text);
                        let mut r = res.lock().unwrap();
                        *r += &format!("{i} {k} {}", o.line());
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let rep = sched::run(clients, &c.preempts, true);
        use std::sync::atomic::Ordering::SeqCst;
        format!(
            "{}end {} {} {} {} {} {}\n",
            res.into_inner().unwrap(),
            rep.steps,
            rep.fired,
            rep.handed_over,
            env::RANDOM_CALLS.load(SeqCst) - n0,
            env::ENV_CALLS.load(SeqCst),
            env::CLOCK_CALLS.load(SeqCst)
        )
    });
    match r {
        Ended::Died(s) => Err(Ref::Died(s)),
        Ended::Hung => Err(Ref::Hung),
        Ended::Said(s) => {
            let mut seen = Seen::default();
            let mut ended = false;
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("end ") {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    seen.rep = sched::Report { steps: v[0], fired: v[1], handed_over: v[2], ..Default::default() };
                    (seen.randoms, seen.envs, seen.clocks) = (v[3], v[4], v[5]);
                    ended = true;
                } else {
                    let mut w = l.splitn(3, ' ');
                    let (Some(i), Some(k), Some(o)) = (w.next(), w.next(), w.next()) else { continue };
                    if let (Ok(i), Ok(k), Some(o)) = (i.parse(), k.parse(), Outcome::parse(o)) {
                        seen.outcomes.push((i, k, o));
                    }
                }
            }
            if ended { Ok(seen) } else { Err(Ref::Died(format!("garbled: {s:?}"))) }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub msg: String,
}

fn show(d: &Def) -> String {
    let mut t = d.text.replace('\n', " ");
    if t.len() > 700 {
        let mut n = 700;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
        t += "..";
    }
    format!("derive({}) on `{t}`", d.kind)
}

#[derive(Default)]
pub struct Stats {
    n: BTreeMap<&'static str, u64>,
    distinct: BTreeSet<u64>,
    digest: u64,
    /// Diagnostics, and how often.
    said: BTreeMap<String, u64>,
}
impl Stats {
    fn bump(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n;
    }
}

/// What is known of the definition, against what became of it.
fn verdict(d: &Def, o: &Outcome) -> Option<Viol> {
    match &d.expect {
        _ if o.not_tokens => None,
        Expect::Any => None,
        Expect::Good => (!o.diags.is_empty()).then(|| Viol { class: "Rejected", msg: format!("a sound definition is rejected with {:?}: {}", o.diags, show(d)) }),
        Expect::Bad(_) | Expect::Each(_) if o.diags.is_empty() => {
            Some(Viol { class: "NoDiagnostic", msg: format!("no diagnostic for a malformed definition: {}", show(d)) })
        }
        Expect::Each(v) => {
            let at = o.places();
            let missed = v.iter().find(|(a, b)| !at.iter().any(|(l, c)| *l == 1 && a <= c && c < b));
            missed.map(|&(a, b)| {
                let t: Vec<char> = d.text.chars().collect();
                let m: String = t[a.min(t.len())..b.min(t.len())].iter().collect();
                Viol { class: "Misplaced", msg: format!("nothing is said of one of {} contradictions, {m:?}, in diagnostics {:?}: {}", v.len(), o.diags, show(d)) }
            })
        }
        Expect::Bad(v) => {
            let hit = v.is_empty() || o.places().iter().any(|(l, c)| *l == 1 && v.iter().any(|(a, b)| a <= c && c < b));
            (!hit).then(|| {
                let t: Vec<char> = d.text.chars().collect();
                let want: Vec<String> = v.iter().map(|&(a, b)| t[a.min(t.len())..b.min(t.len())].iter().collect()).collect();
                Viol { class: "Misplaced", msg: format!("diagnostics {:?} are not where the contradiction is, {want:?}: {}", o.diags, show(d)) }
            })
        }
    }
}

fn seeds_pristine(d: &Def, r: &Ref) -> Option<Viol> {
    match r {
        Ref::Hung => Some(Viol { class: "Hang", msg: format!("expansion does not end: {}", show(d)) }),
        Ref::Died(s) => Some(Viol { class: "Crash", msg: format!("expansion {s}: {}", show(d)) }),
        Ref::Ok(o, _) => {
            if let Some(p) = &o.panic {
                return Some(Viol { class: "Panic", msg: format!("the macro panics ({p}): {}", show(d)) });
            }
            verdict(d, o)
        }
    }
}

/// Sound and contradictory definitions on a server (C18).
fn judge_contra(c: &mut Case, st: &mut Stats) -> Option<Viol> {
    st.bump("cases", 1);
    if c.preempts.is_empty() {
        let total: u64 = c.defs.iter().map(|d| d.text.len() as u64 * 12).sum();
        c.preempts = c.wish.iter().map(|&(w, t)| (1 + u64::from(w) * total / (1 << 20), t)).collect();
    }
    let seen = match server(c, false) {
        Ok(s) => s,
        Err(Ref::Hung) => return Some(Viol { class: "Hang", msg: "the macro server makes no progress".into() }),
        Err(Ref::Died(s)) => return Some(Viol { class: "Crash", msg: format!("the macro server {s}") }),
        Err(_) => unreachable!(),
    };
    st.bump("servers", 1);
    st.bump("expansions", seen.outcomes.len() as u64);
    st.bump("scheduling points", seen.rep.steps);
    st.bump("preemptions", seen.rep.fired);
    st.bump("fault thread blocked on another", seen.rep.handed_over);
    st.bump("fault hash map seeds drawn", seen.randoms);
    st.bump("servers with several threads", u64::from(c.clients.len() > 1));
    for (i, k, o) in &seen.outcomes {
        let d = &c.defs[c.clients[*i][*k]];
        st.digest = st.digest.rotate_left(1) ^ fnv(o.code, &o.spans.to_le_bytes());
        if let Some(v) = seeds_pristine(d, &Ref::Ok(o.clone(), 0)) {
            return Some(v);
        }
        let bad = d.expect.is_bad();
        for m in &o.diags {
            *st.said.entry(m.rsplit_once(" @").map_or(m.as_str(), |x| x.0).to_string()).or_default() += 1;
        }
        st.bump(if bad { "definitions with a contradiction" } else { "definitions that are sound" }, 1);
        st.bump("fault contradictions injected", u64::from(bad));
        if bad {
            st.bump("nontrivial servers", 1);
            st.bump("definitions with a contradiction diagnosed where it is", u64::from(matches!(&d.expect, Expect::Bad(v) if !v.is_empty())));
        }
        // Which diagnostics of which macro at which distance from the start.
        let mut h = fnv(0, d.kind.as_bytes());
        for m in &o.diags {
            h = fnv(h, m.split(" @").next().unwrap_or(m).as_bytes());
        }
        if bad || *k > 0 {
            st.distinct.insert(fnv(h, &[(d.text.len() / 200).min(40) as u8]));
        }
    }
    if seen.outcomes.len() != c.clients.iter().map(Vec::len).sum::<usize>() {
        return Some(Viol { class: "Crash", msg: "an expansion is missing".into() });
    }
    None
}

fn judge(c: &mut Case, st: &mut Stats) -> Option<Viol> {
    if contra_mode() {
        return judge_contra(c, st);
    }
    st.bump("cases", 1);
    let refs: Vec<Ref> = c.defs.iter().map(|d| pristine(d, false)).collect();
    st.bump("pristine expansions", refs.len() as u64);
    let used: BTreeSet<usize> = c.clients.iter().flatten().copied().collect();
    let mut total = 0;
    for (d, r) in c.defs.iter().zip(&refs) {
        if let Some(v) = seeds_pristine(d, r) {
            return Some(v);
        }
        if let Ref::Ok(o, _) = r {
            st.bump(
                match o.diags.len() {
                    _ if o.not_tokens => "definitions that are not tokens",
                    0 => "definitions that expand",
                    1 => "definitions with a diagnostic",
                    _ => "definitions with several diagnostics",
                },
                1,
            );
        }
    }
    for l in &c.clients {
        for &i in l {
            if let Ref::Ok(_, n) = &refs[i] {
                total += n;
            }
        }
    }
    if c.preempts.is_empty() {
        c.preempts = c.wish.iter().map(|&(w, t)| (1 + u64::from(w) * total / (1 << 20), t)).collect();
    }
    let seen = match server(c, false) {
        Ok(s) => s,
        Err(Ref::Hung) => return Some(Viol { class: "Hang", msg: "the macro server makes no progress".into() }),
        Err(Ref::Died(s)) => return Some(Viol { class: "Crash", msg: format!("the macro server {s}") }),
        Err(_) => unreachable!(),
    };
    st.bump("servers", 1);
    st.bump("expansions", seen.outcomes.len() as u64);
    st.bump("scheduling points", seen.rep.steps);
    st.bump("preemptions", seen.rep.fired);
    st.bump("fault thread blocked on another", seen.rep.handed_over);
    st.bump("fault hash map seeds drawn", seen.randoms);
    st.bump("fault environment read", seen.envs);
    st.bump("fault clock read", seen.clocks);
    st.bump("servers with several threads", u64::from(c.clients.len() > 1));
    let mut shape = fnv(0, &c.clients.len().to_le_bytes());
    shape = fnv(shape, &seen.rep.fired.min(8).to_le_bytes());
    let mut failed_before = false;
    let mut nontrivial = seen.rep.fired > 0;
    for (i, k, o) in &seen.outcomes {
        let d = c.clients[*i][*k];
        let Ref::Ok(p, _) = &refs[d] else { unreachable!() };
        st.digest = st.digest.rotate_left(1) ^ fnv(o.code, &o.spans.to_le_bytes());
        shape = fnv(shape, &[o.diags.len().min(4) as u8, c.defs[d].kind.len() as u8, (o.tokens / 256).min(40) as u8]);
        nontrivial |= *k > 0;
        if failed_before {
            st.bump("expansions after a failed one", 1);
        }
        failed_before |= !o.diags.is_empty();
        if let Some(m) = o.differs(p) {
            return Some(Viol {
                class: "Differs",
                msg: format!("expansion {k} on thread {i} differs from the one in a pristine process: {m}; {}", show(&c.defs[d])),
            });
        }
    }
    if seen.outcomes.len() != c.clients.iter().map(Vec::len).sum::<usize>() {
        return Some(Viol { class: "Crash", msg: "an expansion is missing".into() });
    }
    st.bump("fault damaged definitions expanded", used.iter().filter(|&&i| matches!(&refs[i], Ref::Ok(o, _) if !o.diags.is_empty())).count() as u64);
    if nontrivial {
        st.bump("nontrivial servers", 1);
        st.distinct.insert(shape);
    }
    None
}

static CONTRA: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn contra_mode() -> bool {
    CONTRA.load(std::sync::atomic::Ordering::SeqCst)
}
fn make_case(seed: u64, i: u64) -> Case {
    if contra_mode() { case::make_contra(seed, i) } else { case::make(seed, i) }
}

/// Smaller cases that still show a violation of the same class.
fn minimize(mut c: Case, class: &str, deadline: Instant) -> Case {
    let fails = |c: &Case| {
        if Instant::now() > deadline {
            return false;
        }
        let mut t = c.clone();
        t.wish.clear();
        judge(&mut t, &mut Stats::default()).is_some_and(|v| v.class == class)
    };
    // Definitions are renumbered when one is dropped.
    let without = |c: &Case, d: usize| {
        let mut n = c.clone();
        n.defs.remove(d);
        for l in &mut n.clients {
            l.retain(|&x| x != d);
            for x in l.iter_mut() {
                if *x > d {
                    *x -= 1;
                }
            }
        }
        n
    };
    for _ in 0..6 {
        let before = c.clone();
        let mut d = 0;
        while d < c.defs.len() && c.defs.len() > 1 {
            let n = without(&c, d);
            if fails(&n) { c = n } else { d += 1 }
        }
        if !c.preempts.is_empty() {
            let mut n = c.clone();
            n.preempts.clear();
            if fails(&n) {
                c = n;
            }
        }
        let mut k = 0;
        while k < c.preempts.len() {
            let mut n = c.clone();
            n.preempts.remove(k);
            if fails(&n) { c = n } else { k += 1 }
        }
        let mut t = 0;
        while t < c.clients.len() && c.clients.len() > 1 {
            let mut n = c.clone();
            n.clients.remove(t);
            if fails(&n) { c = n } else { t += 1 }
        }
        for t in 0..c.clients.len() {
            let mut k = 0;
            while k < c.clients[t].len() {
                let mut n = c.clone();
                n.clients[t].remove(k);
                if fails(&n) { c = n } else { k += 1 }
            }
        }
        // (Without what makes it malformed, a definition need not yield a diagnostic.)
        let edit = if ["NoDiagnostic", "Misplaced", "Rejected"].contains(&class) || contra_mode() { 0 } else { c.defs.len() };
        for d in 0..edit {
            // Remove runs of token trees, long ones first.
            for run in [9usize, 5, 4, 3, 2, 1] {
                let mut at = 0;
                loop {
                    let Ok(ts) = c.defs[d].text.parse::<proc_macro2::TokenStream>() else { break };
                    let ps = defs::positions(&ts);
                    if at >= ps.len() || Instant::now() > deadline {
                        break;
                    }
                    let mut t = ts;
                    let mut whole = true;
                    for _ in 0..run {
                        let mut hit = false;
                        t = defs::edit(t, &ps[at], &mut |_| {
                            hit = true;
                            vec![]
                        });
                        whole &= hit;
                    }
                    let mut n = c.clone();
                    n.defs[d].text = t.to_string();
                    if whole && fails(&n) { c = n } else { at += 1 }
                }
            }
        }
        if c == before {
            break;
        }
    }
    c
}

fn main() {
    let trace = std::env::var_os("MACROSIM_TRACE").is_some();
    std::panic::set_hook(Box::new(move |p| {
        if trace {
            eprintln!("{p}");
        }
    }));
    let mut a: Vec<String> = std::env::args().collect();
    // C14 or C18.
    let id = a.remove(1);
    CONTRA.store(id == "C18", std::sync::atomic::Ordering::SeqCst);
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        // work SEED FROM TO STRIDE SECONDS
        "work" => {
            cov::share();
            let (seed, from, to, stride) = (num(2), num(3), num(4), num(5));
            let deadline = Instant::now() + Duration::from_secs(num(6));
            let mut st = Stats::default();
            let mut i = from;
            let mut digest = 0u64;
            // For surveys by hand.
            let all = std::env::var_os("MACROSIM_ALL").is_some();
            while i < to && Instant::now() < deadline {
                proc_macro2::extra::invalidate_current_thread_spans();
                let mut c = make_case(seed, i);
                st.digest = i;
                if let Some(v) = judge(&mut c, &mut st) {
                    println!("viol\t{i}\t{}\t{}", v.class, v.msg.replace('\n', "\\n"));
                    if !all {
                        break;
                    }
                }
                digest = digest.wrapping_add(fnv(0, &st.digest.to_le_bytes()));
                i += stride;
            }
            for (k, n) in &st.n {
                println!("stat\t{k}\t{n}");
            }
            for (k, n) in &st.said {
                println!("said\t{n}\t{}", k.replace('\n', "\\n"));
            }
            println!("digest\t{digest:016x}");
            for d in &st.distinct {
                println!("d\t{d:016x}");
            }
            println!("branches\t{}\t{}", cov::total(), cov::reached());
            println!("end");
        }
        // minimize SEED INDEX CLASS OUT SECONDS
        "minimize" => {
            let mut c = make_case(num(2), num(3));
            _ = judge(&mut c, &mut Stats::default());
            c.wish.clear();
            let deadline = Instant::now() + Duration::from_secs(num(6));
            let m = minimize(c, &a[4], deadline);
            let v = judge(&mut m.clone(), &mut Stats::default());
            std::fs::write(&a[5], m.to_text(&format!("property {id}\nfrom seed {} case {}\n", a[2], a[3]))).unwrap();
            if let Some(v) = v {
                println!("viol\t0\t{}\t{}", v.class, v.msg.replace('\n', "\\n"));
            }
        }
        "run-file" => {
            let mut c = Case::parse(&std::fs::read_to_string(&a[2]).unwrap()).expect("replay file");
            let v = judge(&mut c, &mut Stats::default());
            for (i, d) in c.defs.iter().enumerate() {
                println!("definition {i}: {}", show(d));
                match pristine(d, true) {
                    Ref::Ok(o, _) => println!("  pristine: panic {:?}, diagnostics {:?}, {} tokens", o.panic, o.diags, o.tokens),
                    x => println!("  pristine: {x:?}"),
                }
            }
            if let Ok(s) = server(&c, true) {
                for (i, k, o) in &s.outcomes {
                    println!(
                        "thread {i} expansion {k} of definition {}: panic {:?}, diagnostics {:?}, {} tokens",
                        c.clients[*i][*k], o.panic, o.diags, o.tokens
                    );
                }
            }
            if let Some(v) = v {
                println!("viol {} {}", v.class, v.msg.replace('\n', "\\n"));
                std::process::exit(1);
            }
        }
        "show" => {
            let c = make_case(num(2), num(3));
            println!("{}", c.to_text(""));
        }
        _ => std::process::exit(2),
    }
}
