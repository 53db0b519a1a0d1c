//! Shrinks a failing execution. Every candidate runs in a fresh process.

use crate::orch::try_cases;
use crate::plan::{Case, Fault, Plan, Step};
use std::path::Path;
use std::time::{Duration, Instant};

pub struct Minimized {
    pub cases: Vec<Case>,
    pub message: String,
    pub reproduced: bool,
}

struct Search<'a> {
    check: &'a str,
    class: &'a str,
    refs: &'a Path,
    deadline: Instant,
    limit: u64,
    last: String,
}

impl Search<'_> {
    fn fails(&mut self, cases: &[Case]) -> bool {
        if Instant::now() > self.deadline {
            return false;
        }
        for (_, c, m) in try_cases(self.check, cases, self.refs, self.limit) {
            if c == self.class {
                self.last = m;
                return true;
            }
        }
        false
    }
}

pub fn minimize(check: &str, before: Vec<Case>, case: Case, class: &str, refs: &Path) -> Minimized {
    let hang = class == "Hang";
    let mut s = Search {
        check,
        class,
        refs,
        deadline: Instant::now() + Duration::from_secs(if hang { 90 } else { 60 }),
        limit: if hang { 15 } else { 30 },
        last: String::new(),
    };
    let mut prefix = Vec::new();
    if !s.fails(std::slice::from_ref(&case)) {
        // It takes earlier cases in the same process.
        let mut all = before;
        all.push(case.clone());
        if !s.fails(&all) {
            return Minimized { cases: all, message: String::new(), reproduced: false };
        }
        all.pop();
        prefix = all;
        let mut step = prefix.len().div_ceil(2).max(1);
        while !prefix.is_empty() {
            let mut at = 0;
            while at < prefix.len() {
                let mut t = prefix.clone();
                t.drain(at..(at + step).min(t.len()));
                let mut c = t.clone();
                c.push(case.clone());
                if s.fails(&c) {
                    prefix = t;
                } else {
                    at += step;
                }
            }
            if step == 1 {
                break;
            }
            step = step.div_ceil(2);
        }
    }
    let mut best = case;
    loop {
        let mut improved = false;
        for edit in candidates(check, &best) {
            let mut c = best.clone();
            edit(&mut c);
            if c == best {
                continue;
            }
            let mut v = prefix.clone();
            v.push(c.clone());
            if s.fails(&v) {
                best = c;
                improved = true;
                break;
            }
            if Instant::now() > s.deadline {
                break;
            }
        }
        if !improved {
            break;
        }
    }
    let mut v = prefix;
    v.push(best);
    // Leave the message of what is finally recorded.
    s.deadline = Instant::now() + Duration::from_secs(60);
    let again = s.fails(&v);
    Minimized { cases: v, message: s.last, reproduced: again }
}

/// One way of making something smaller. Applied one at a time: a large plan has many.
type Edit<T> = Box<dyn Fn(&mut T)>;

fn remove_items(q: &mut Plan, from: usize, to: usize, follow: bool) {
    q.items.drain(from..to);
    if follow {
        q.faults.retain_mut(|f| match f {
            Fault::Eof(k) if *k >= to => {
                *k -= to - from;
                true
            }
            Fault::Reframe(i, _, _) if *i >= to => {
                *i -= to - from;
                true
            }
            Fault::Reframe(i, k, _) => *i + *k <= from,
            _ => true,
        });
    }
}

fn smaller_plans(check: &str, p: &Plan) -> Vec<Edit<Plan>> {
    let mut out: Vec<Edit<Plan>> = Vec::new();
    let mut add = |f: Edit<Plan>| out.push(f);
    // Large pieces first.
    let n = p.items.len();
    let mut piece = n / 2;
    while piece > 2 {
        let mut at = 1;
        while at + piece <= n {
            add(Box::new(move |q| remove_items(q, at, at + piece, true)));
            at += piece;
        }
        if piece <= n / 64 {
            break;
        }
        piece /= 2;
    }
    if check != "C13" {
        add(Box::new(move |q| q.renders.clear()));
    }
    for i in (0..p.nested.len()).rev() {
        add(Box::new(move |q| _ = q.nested.remove(i)));
    }
    // Bake the transport faults into the items.
    if p.faults.iter().any(|f| f.kind() != "end of input" && !matches!(f, Fault::Resume | Fault::Hint(_) | Fault::ConvFail(_) | Fault::DispFail(..))) {
        add(Box::new(move |q| {
            let d = q.deliver();
            q.items = d.items;
            q.faults.retain(|f| matches!(f, Fault::Eof(_) | Fault::Resume | Fault::Hint(_) | Fault::ConvFail(_) | Fault::DispFail(..)));
        }));
    }
    for i in (0..p.faults.len()).rev() {
        add(Box::new(move |q| _ = q.faults.remove(i)));
    }
    for i in (1..n).rev().take(400) {
        add(Box::new(move |q| remove_items(q, i, i + 1, true)));
        add(Box::new(move |q| remove_items(q, i, i + 1, false)));
    }
    if p.renders.len() > 1 {
        add(Box::new(move |q| _ = q.renders.drain(q.renders.len() / 2..)));
        add(Box::new(move |q| _ = q.renders.drain(..q.renders.len() / 2)));
        if p.renders.len() < 12 {
            for i in 0..p.renders.len() {
                add(Box::new(move |q| _ = q.renders.remove(i)));
            }
        }
    }
    for (k, (at, inner)) in p.nested.iter().enumerate() {
        for s in smaller_plans(check, inner) {
            add(Box::new(move |q| s(&mut q.nested[k].1)));
        }
        if *at > 0 {
            add(Box::new(move |q| q.nested[k].0 = 0));
            add(Box::new(move |q| q.nested[k].0 -= 1));
        }
    }
    for (i, f) in p.faults.iter().cloned().enumerate() {
        match f {
            Fault::Eof(k) if k > 0 => add(Box::new(move |q| q.faults[i] = Fault::Eof(k - 1))),
            Fault::ConvFail(k) if k > 0 => add(Box::new(move |q| q.faults[i] = Fault::ConvFail(k - 1))),
            Fault::DispFail(k, at) if at > 0 => add(Box::new(move |q| q.faults[i] = Fault::DispFail(k, at - 1))),
            Fault::DispFail(k, at) if k > 0 => add(Box::new(move |q| q.faults[i] = Fault::DispFail(k - 1, at))),
            _ => {}
        }
    }
    for i in 0..n {
        if p.items[i].len() > 24 {
            add(Box::new(move |q| {
                let n = q.items[i].len() / 2;
                q.items[i].truncate(n);
            }));
        }
        if i == 0 && p.items[0] != b"p" {
            add(Box::new(move |q| q.items[0] = b"p".to_vec()));
        }
    }
    if let (true, Some(crate::plan::Render::Io(s))) = (check == "C13", p.renders.first()) {
        for i in (1..s.len()).rev() {
            add(Box::new(move |q| {
                if let Some(crate::plan::Render::Io(s)) = q.renders.first_mut() {
                    s.remove(i);
                }
            }));
        }
        if s[0] != 0 {
            add(Box::new(move |q| {
                if let Some(crate::plan::Render::Io(s)) = q.renders.first_mut() {
                    s[0] = 0;
                }
            }));
        }
    }
    out
}

fn candidates(check: &str, c: &Case) -> Vec<Edit<Case>> {
    let mut out: Vec<Edit<Case>> = Vec::new();
    let mut add = |f: Edit<Case>| out.push(f);
    if c.clients.len() > 1 {
        for i in 0..c.clients.len() {
            // Keep the numbering; an empty client does nothing.
            if !c.clients[i].is_empty() {
                add(Box::new(move |q| q.clients[i].clear()));
            }
        }
        if c.clients.last().is_some_and(Vec::is_empty) {
            add(Box::new(move |q| _ = q.clients.pop()));
        }
    }
    if c.fine {
        add(Box::new(move |q| q.fine = false));
    }
    let k = c.preempts.len();
    if k > 3 {
        add(Box::new(move |q| q.preempts.truncate(k / 2)));
        add(Box::new(move |q| _ = q.preempts.drain(..k / 2)));
    }
    for i in (0..k).rev() {
        add(Box::new(move |q| _ = q.preempts.remove(i)));
    }
    for (i, cl) in c.clients.iter().enumerate() {
        let n = cl.len();
        if n > 3 {
            add(Box::new(move |q| q.clients[i].truncate(n / 2)));
            add(Box::new(move |q| _ = q.clients[i].drain(..n / 2)));
        }
        for s in (0..n).rev() {
            add(Box::new(move |q| _ = q.clients[i].remove(s)));
        }
    }
    // The same argument out of every variation of one stream.
    if let [cl] = &c.clients[..]
        && cl.len() > 1
        && let Some(p) = c.plans().next()
    {
        for i in (1..p.items.len()).rev().take(400) {
            add(Box::new(move |q| {
                let first = q.plans().next().unwrap().items.clone();
                for step in &mut q.clients[0] {
                    let Step::Run(p) = step else { continue };
                    let at = if p.items == first { Some(i) } else { p.items.iter().position(|x| *x == first[i]) };
                    if let Some(at) = at {
                        remove_items(p, at, at + 1, true);
                    }
                }
            }));
        }
    }
    for (i, cl) in c.clients.iter().enumerate() {
        for (s, step) in cl.iter().enumerate() {
            if let Step::Run(p) = step {
                for sp in smaller_plans(check, p) {
                    add(Box::new(move |q| {
                        if let Step::Run(p) = &mut q.clients[i][s] {
                            sp(p);
                        }
                    }));
                }
            }
        }
    }
    out
}
