//! Runs a range of cases in this process and reports what was seen, as lines of text.

use crate::checks::{self, canonical, nontrivial, shape, verdict};
use crate::exec::{self, RunSeen, SeenOut, StepSeen, exec_case};
use crate::judge::Viol;
use crate::plan::{Case, Fault, Step};
use clispec::rng::fnv;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub digest: u64,
}

impl Stats {
    fn bump(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.n.entry(k.to_string()).or_default() += n;
        }
    }
}

fn note_run(st: &mut Stats, s: &RunSeen) {
    st.bump("runs", 1);
    st.bump("steps", s.events.len() as u64);
    for f in &s.effective {
        st.bump(&format!("fault {f}"), 1);
    }
    if s.conv_fault_fired {
        st.bump("fault conversion fails", 1);
    }
    if s.disp_fault.is_some() {
        st.bump("fault default's formatting fails", 1);
    }
    if s.delivered < s.items.len() {
        st.bump("fault stream ends early", 1);
        if s.plan.faults.contains(&Fault::Resume) {
            st.bump("fault source resumes after its end", 1);
        }
    }
    if s.plan.faults.iter().any(|f| matches!(f, Fault::Hint(_))) {
        st.bump("fault wrong size estimate", 1);
    }
    for r in &s.renders {
        if let Some(k) = r.op.fault_kind()
            && r.fired
        {
            st.bump(&format!("fault {k}"), 1);
        }
    }
    st.bump(
        match &s.out {
            SeenOut::Ok(_) => "outcome ok",
            SeenOut::Panicked(_) => "outcome panic",
            SeenOut::Err { .. } if s.help.is_some() => "outcome help",
            SeenOut::Err { .. } => "outcome error",
        },
        1,
    );
    for t in &s.expected.tags {
        st.bump(&format!("situation {t}"), 1);
    }
    st.digest = fnv(st.digest, canonical(s).as_bytes());
    st.digest = fnv(st.digest, &s.events.len().to_le_bytes());
    for n in &s.nested {
        st.bump("nested parses", 1);
        note_run(st, n);
    }
}

/// Executes and judges one case.
pub fn one(check: &str, case: &Case, st: &mut Stats) -> Vec<Viol> {
    st.bump("cases", 1);
    if check == "C13" {
        let mut v = Vec::new();
        for p in case.plans() {
            let r = crate::proc::run(p, &mut st.n);
            st.bump("runs", 1);
            st.bump("steps", 1 + r.writes);
            if r.nontrivial {
                st.bump("nontrivial runs", 1);
                st.distinct.insert(r.shape);
            }
            st.digest = fnv(st.digest, r.digest.as_bytes());
            v.extend(r.viols);
        }
        return v;
    }
    let seen = exec_case(case);
    for steps in &seen.steps {
        for (k, s) in steps.iter().enumerate() {
            match s {
                StepSeen::Run(r) => {
                    note_run(st, r);
                    if nontrivial(check, case, &seen, k, r) {
                        let mut h = shape(r);
                        if check == "C06" {
                            h = fnv(h, &seen.sched.fired.min(8).to_le_bytes());
                            h = fnv(h, &r.nested.len().to_le_bytes());
                        }
                        st.bump("nontrivial runs", 1);
                        st.distinct.insert(h);
                    }
                }
                StepSeen::Take { text, help, .. } => {
                    st.bump("errors handed to another client", 1);
                    st.digest = fnv(st.digest, format!("{text:?}{help:?}").as_bytes());
                }
                StepSeen::Nothing => {}
            }
        }
    }
    st.bump("preemptions", seen.sched.fired);
    st.bump("scheduling points", seen.sched.steps);
    st.bump("clients passed over while blocked", seen.sched.handed_over);
    st.bump("waits for a lock", seen.sched.lock_waits);
    for (i, n) in seen.sched.by_site.iter().enumerate() {
        let name = ["request", "conversion", "drop", "formatting", "sink", "allocation", "between steps", "branch"][i];
        st.bump(&format!("preempted at {name}"), *n);
    }
    if case.clients.len() > 1 {
        st.bump("concurrent cases", 1);
        let mut h = 0;
        for (at, c) in &case.preempts {
            h = fnv(h, &at.to_le_bytes());
            h = fnv(h, &c.to_le_bytes());
        }
        _ = h;
    }
    st.bump(
        "errors kept for another client",
        case.clients.iter().flatten().filter(|s| matches!(s, Step::Take { .. })).count() as u64,
    );
    verdict(check, case, &seen)
}

fn put(s: &str) {
    let mut o = std::io::stdout().lock();
    o.write_all(s.as_bytes()).unwrap();
    o.flush().unwrap();
}

pub fn report(st: &Stats) {
    let mut s = String::new();
    for (k, n) in &st.n {
        s += &format!("stat {n} {k}\n");
    }
    s += &format!("digest {:016x}\n", st.digest);
    for d in &st.distinct {
        s += &format!("d {d:016x}\n");
    }
    s += &format!("branches {} {}\nend\n", simrt::cov::total(), simrt::cov::reached());
    put(&s);
}

pub fn viol_line(i: u64, v: &Viol) -> String {
    format!("viol {i} {} {} {} {}\n", v.class.name(), v.at.0, v.at.1, v.msg.replace('\n', "\\n"))
}

/// `progress`: file that always names the case being run.
pub fn work(check: &str, seed: u64, from: u64, to: u64, progress: &str) {
    exec::init();
    let f = std::fs::File::create(progress).unwrap();
    let mut st = Stats::default();
    for i in from..to {
        use std::os::unix::fs::FileExt;
        f.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let case = checks::make(check, seed, i);
        let v = one(check, &case, &mut st);
        for x in v.iter().take(3) {
            put(&viol_line(i, x));
        }
        if !v.is_empty() {
            break;
        }
    }
    report(&st);
}

/// Runs the cases of a file, in one process.
pub fn run_file(check: &str, cases: &[Case]) -> bool {
    exec::init();
    let mut st = Stats::default();
    let mut bad = false;
    for (i, c) in cases.iter().enumerate() {
        put(&format!("case {i}\n"));
        for x in one(check, c, &mut st) {
            bad = true;
            put(&viol_line(i as u64, &x));
        }
    }
    put(&format!("digest {:016x}\nend\n", st.digest));
    bad
}
