//! Starts worker processes, watches over them, and puts their reports together.

use crate::exec::{self, HELP, path_text, world};
use crate::plan::{Case, Plan, cases_text};
use crate::{checks, minimize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn exe() -> PathBuf {
    "/proc/self/exe".into()
}

pub fn scratch() -> PathBuf {
    std::env::var_os("PALCSIM_TMP").map_or_else(std::env::temp_dir, PathBuf::from)
}

/// Runs of one parse in a process of its own that had to be stopped.
static HUNG: AtomicU64 = AtomicU64::new(0);

fn alone(args: &[&std::ffi::OsStr]) -> Option<Ran> {
    // A tree on which these hang shows it in the cases as well.
    if HUNG.load(SeqCst) >= 8 {
        return None;
    }
    let mut c = Command::new(exe());
    c.args(args);
    let ran = run_watched(c, None, Duration::from_secs(20), &AtomicBool::new(false));
    if ran.hung {
        HUNG.fetch_add(1, SeqCst);
    }
    Some(ran)
}

/// Help text of one command as a process that did nothing else renders it.
pub fn spawn_help_ref(cli: usize, path: &[usize]) -> Option<String> {
    let ran = alone(&["help-ref".as_ref(), cli.to_string().as_ref(), path_text(path).as_ref()])?;
    if ran.code != Some(0) {
        return None;
    }
    Some(ran.stdout).filter(|s| !s.is_empty())
}

/// What one parse alone in a fresh process gives.
pub fn spawn_solo(p: &Plan) -> Option<String> {
    let f = scratch().join(format!("solo-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::write(&f, cases_text(&[Case::single(vec![p.clone()])])).ok()?;
    let ran = alone(&["solo".as_ref(), f.as_ref()]);
    _ = std::fs::remove_file(&f);
    let ran = ran?;
    if ran.code != Some(0) {
        return Some(format!("process ended with code {:?}, signal {:?}", ran.code, ran.signal));
    }
    Some(ran.stdout)
}

fn pool<T: Sync>(jobs: usize, items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                while let Some(x) = items.get(next.fetch_add(1, SeqCst)) {
                    f(x);
                }
            });
        }
    });
}

/// Reference help texts of every reachable command.
pub fn write_refs(file: &Path, jobs: usize) {
    let mut todo = Vec::new();
    if HELP {
        for &i in &world().available {
            let c = &world().cmds[i];
            let mut paths = Vec::new();
            checks::all_paths(c, &mut vec![], &mut paths);
            for p in paths {
                if exec::help_request(c, &p, b"x").is_some() {
                    todo.push((i, p));
                }
            }
        }
    }
    let out = Mutex::new(BTreeMap::new());
    pool(jobs, &todo, |(i, p)| {
        let t = spawn_help_ref(*i, p);
        out.lock().unwrap().insert((*i, p.clone()), t);
    });
    let mut s = String::new();
    for ((i, p), t) in out.into_inner().unwrap() {
        let v = t.map_or("-".to_string(), |t| t.bytes().map(|b| format!("{b:02x}")).collect());
        s += &format!("{i} {} {v}\n", path_text(&p));
    }
    std::fs::write(file, s).unwrap();
}

#[derive(Clone, Debug)]
pub struct Found {
    pub index: u64,
    pub class: String,
    pub at: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub stats: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    /// Branches of the code under test: how many there are, and which were reached.
    pub branches: u64,
    pub reached: Vec<u8>,
    pub digests: BTreeMap<u64, u64>,
    pub found: Vec<Found>,
    pub broken: Vec<String>,
}

pub const HANG_S: u64 = 60;

/// Output of a child process, with a limit on how long it may stay silent (`progress` unchanged).
pub struct Ran {
    pub stdout: String,
    pub stderr: String,
    pub signal: Option<i32>,
    pub code: Option<i32>,
    pub hung: bool,
}

/// A parse that runs away must end in a failed allocation, not in a machine without memory.
pub fn cap_memory() -> std::io::Result<()> {
    unsafe extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const AS: i32 = 9;
    if unsafe { setrlimit(AS, &[3 << 30, 3 << 30]) } != 0 {
        return Err(std::io::Error::last_os_error());
    }
    Ok(())
}

/// Processor time of a child, in hundredths of a second.
fn cpu(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit_once(')').map_or("", |x| x.1);
    rest.split_whitespace().skip(11).take(4).filter_map(|x| x.parse::<u64>().ok()).sum()
}

pub fn run_watched(mut c: Command, progress: Option<&Path>, limit: Duration, stop: &AtomicBool) -> Ran {
    unsafe { std::os::unix::process::CommandExt::pre_exec(&mut c, cap_memory) };
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("worker");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let mut out = Vec::new();
    let mut err = String::new();
    let mut hung = false;
    let fin = AtomicBool::new(false);
    let st = std::thread::scope(|s| {
        s.spawn(|| _ = so.read_to_end(&mut out));
        let t = s.spawn(|| {
            let mut b = Vec::new();
            _ = se.read_to_end(&mut b);
            let n = b.len().saturating_sub(4000);
            err = String::from_utf8_lossy(&b[n..]).into_owned();
        });
        let mut last = (Vec::new(), cpu(ch.id()));
        let mut ticked = (0, Instant::now());
        let st = loop {
            if let Some(st) = ch.try_wait().unwrap() {
                break st;
            }
            if stop.load(SeqCst) {
                _ = ch.kill();
            }
            let now = progress.map(|p| std::fs::read(p).unwrap_or_default()).unwrap_or_default();
            // Time it got to run, so that a busy machine makes no difference; or blocked for good.
            let used = cpu(ch.id());
            if now != last.0 {
                last = (now, used);
            }
            if used != ticked.0 {
                ticked = (used, Instant::now());
            }
            if used.saturating_sub(last.1) > limit.as_secs() * 100 || ticked.1.elapsed() > limit.max(Duration::from_secs(60)) {
                hung = true;
                _ = ch.kill();
            }
            std::thread::sleep(Duration::from_millis(3));
        };
        fin.store(true, SeqCst);
        t.join().unwrap();
        st
    });
    Ran { stdout: String::from_utf8_lossy(&out).into_owned(), stderr: err, signal: st.signal(), code: st.code(), hung }
}

pub struct Job<'a> {
    pub check: &'a str,
    pub seed: u64,
    pub cases: u64,
    pub chunk: u64,
    pub jobs: usize,
    pub refs: &'a Path,
    pub deadline: Instant,
}

pub fn run(j: &Job<'_>) -> Report {
    let rep = Mutex::new(Report::default());
    let chunks: Vec<u64> = (0..j.cases.div_ceil(j.chunk)).collect();
    let stop_at = AtomicU64::new(u64::MAX);
    let never = AtomicBool::new(false);
    pool(j.jobs, &chunks, |&k| {
        if k > stop_at.load(SeqCst) || Instant::now() > j.deadline {
            return;
        }
        let (from, to) = (k * j.chunk, ((k + 1) * j.chunk).min(j.cases));
        let prog = scratch().join(format!("progress-{}-{k}", std::process::id()));
        let mut c = Command::new(exe());
        c.args(["worker", j.check, &j.seed.to_string(), &from.to_string(), &to.to_string()])
            .arg(&prog)
            .arg(j.refs);
        let ran = run_watched(c, Some(&prog), Duration::from_secs(HANG_S), &never);
        let at = std::fs::read(&prog).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
        _ = std::fs::remove_file(&prog);
        let mut r = rep.lock().unwrap();
        let mut ended = false;
        let mut any = false;
        for l in ran.stdout.lines() {
            let mut w = l.splitn(6, ' ');
            match w.next() {
                Some("viol") => {
                    any = true;
                    let index = w.next().unwrap().parse().unwrap();
                    let class = w.next().unwrap().to_string();
                    let at = format!("{}.{}", w.next().unwrap(), w.next().unwrap());
                    r.found.push(Found { index, class, at, msg: w.next().unwrap_or("").to_string() });
                }
                Some("stat") => {
                    let n: u64 = w.next().unwrap().parse().unwrap();
                    let key = w.collect::<Vec<_>>().join(" ");
                    *r.stats.entry(key).or_default() += n;
                }
                Some("digest") => {
                    let d = u64::from_str_radix(w.next().unwrap(), 16).unwrap();
                    r.digests.insert(k, d);
                }
                Some("d") => {
                    r.distinct.insert(u64::from_str_radix(w.next().unwrap(), 16).unwrap());
                }
                Some("branches") => {
                    r.branches = w.next().unwrap().parse().unwrap();
                    let set = w.next().unwrap_or("").as_bytes();
                    r.reached.resize(set.len(), 0);
                    for (a, b) in r.reached.iter_mut().zip(set) {
                        *a |= (*b as char).to_digit(16).unwrap() as u8;
                    }
                }
                Some("end") => ended = true,
                _ => {}
            }
        }
        if !ended && !any {
            // The worker died or hung inside a case.
            let msg = ran.stderr.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ");
            if ran.hung {
                r.found.push(Found { index: at.unwrap_or(from), class: "Hang".into(), at: "0.0".into(), msg: format!("no progress within {HANG_S} s") });
                any = true;
            } else if matches!(ran.signal, Some(4 | 5 | 6 | 7 | 8 | 11)) && at.is_some() {
                let sig = ran.signal.unwrap();
                r.found.push(Found { index: at.unwrap(), class: "Abort".into(), at: "0.0".into(), msg: format!("the process died by signal {sig}: {msg}") });
                any = true;
            } else {
                r.broken.push(format!("worker for cases {from}..{to} ended with code {:?} signal {:?}: {msg}", ran.code, ran.signal));
            }
        }
        if any {
            stop_at.fetch_min(k, SeqCst);
        }
    });
    let mut r = rep.into_inner().unwrap();
    r.found.sort_by(|a, b| a.index.cmp(&b.index));
    r
}

/// Classes of violation shown by these cases in one fresh process.
pub fn try_cases(check: &str, cases: &[Case], refs: &Path, limit: u64) -> Vec<(usize, String, String)> {
    static N: AtomicU64 = AtomicU64::new(0);
    let f = scratch().join(format!("try-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::write(&f, cases_text(cases)).unwrap();
    let mut c = Command::new(exe());
    c.args(["run-file", check]).arg(&f).arg(refs);
    let ran = run_watched(c, None, Duration::from_secs(limit), &AtomicBool::new(false));
    _ = std::fs::remove_file(&f);
    let mut out = Vec::new();
    let mut at = 0;
    let mut ended = false;
    for l in ran.stdout.lines() {
        let mut w = l.splitn(6, ' ');
        match w.next() {
            Some("case") => at = w.next().unwrap().parse().unwrap(),
            Some("viol") => {
                let i = w.next().unwrap().parse().unwrap();
                let class = w.next().unwrap().to_string();
                out.push((i, class, w.nth(2).unwrap_or("").to_string()));
            }
            Some("end") => ended = true,
            _ => {}
        }
    }
    if !ended {
        let msg = ran.stderr.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" | ");
        if ran.hung {
            out.push((at, "Hang".into(), "no progress".into()));
        } else if ran.signal.is_some() {
            out.push((at, "Abort".into(), format!("the process died by signal {}: {msg}", ran.signal.unwrap())));
        }
    }
    out
}

pub struct Outcome {
    pub report: Report,
    pub replay: Option<(PathBuf, String)>,
}

pub fn check(j: &Job<'_>, out_dir: &Path) -> Outcome {
    let report = run(j);
    let mut replay = None;
    // A parse that neither returns nor fails satisfies none of the properties, so every class counts.
    if let Some(f) = report.found.first() {
        let case = checks::make(j.check, j.seed, f.index);
        let before: Vec<Case> = (f.index / j.chunk * j.chunk..f.index)
            .map(|i| checks::make(j.check, j.seed, i))
            .collect();
        let m = if j.check == "C21" {
            // The three parses belong together; what grows is already stated in short.
            minimize::Minimized { cases: vec![case], message: f.msg.clone(), reproduced: true }
        } else {
            minimize::minimize(j.check, before, case, &f.class, j.refs)
        };
        let name = format!("{}-{}-{}-{}.replay", j.check, if HELP { "help" } else { "nohelp" }, j.seed, f.index);
        let path = out_dir.join(name);
        let (ds, dc) = crate::defs();
        let mut s = String::new();
        s += "# Replay of a simulated execution. Run: /verif/replay <this file>\n";
        s += &format!(
            "property {}\nflavour {}\ndefs {ds} {dc}\nseed {}\nindex {}\nclass {}\n",
            j.check,
            if HELP { "help" } else { "nohelp" },
            j.seed,
            f.index,
            f.class
        );
        let shown = if m.message.is_empty() { f.msg.clone() } else { m.message.clone() };
        s += &format!("message {shown}\n");
        s += &format!("reproduced {}\n", m.reproduced);
        for p in m.cases.last().into_iter().flat_map(|c| c.plans()) {
            s += &format!("# definition {}:\n", p.cli);
            for l in crate::describe_cli(p.cli).lines() {
                s += &format!("#   {l}\n");
            }
            break;
        }
        s += &cases_text(&m.cases);
        std::fs::create_dir_all(out_dir).unwrap();
        std::fs::File::create(&path).unwrap().write_all(s.as_bytes()).unwrap();
        replay = Some((path, format!("{}: {shown}", f.class)));
    }
    Outcome { report, replay }
}
