//! One simulated macro server: what it expands, on which threads, under which schedule.

use crate::defs;
use crate::contra;
use crate::expand::{Def, Expect};
use clispec::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Case {
    pub defs: Vec<Def>,
    /// Per thread: the definitions it expands, in order.
    pub clients: Vec<Vec<usize>>,
    pub preempts: Vec<(u64, usize)>,
    pub seed: u64,
    /// How preemption points are spread: share of the total amount of work.
    pub wish: Vec<(u32, usize)>,
}

fn rename(d: &Def, to: &str) -> Def {
    // The identifier after struct/enum/union.
    let mut text = d.text.clone();
    for k in ["struct ", "enum ", "union "] {
        if let Some(p) = text.find(k) {
            let from = p + k.len();
            let end = text[from..].find(|c: char| !c.is_alphanumeric() && c != '_' && c != '#').map_or(text.len(), |e| from + e);
            text.replace_range(from..end, to);
            break;
        }
    }
    Def { text, ..d.clone() }
}

pub fn make(seed: u64, index: u64) -> Case {
    let mut rng = Rng::from_parts(&[seed, 0xC14, index]);
    let mut pool = Vec::new();
    if rng.pct(70) {
        let g = defs::generated(&mut rng);
        for _ in 0..rng.range(1, 4) {
            pool.push(rng.pick(&g).clone());
        }
    }
    while pool.len() < 2 || (pool.len() < 6 && rng.pct(50)) {
        pool.push(if rng.pct(35) { defs::family(&mut rng) } else { defs::random(&mut rng) });
    }
    for _ in 0..rng.below(4) {
        let d = rng.pick(&pool).clone();
        match rng.below(4) {
            0 | 1 => pool.push(defs::damage(&d, &mut rng)),
            2 => pool.extend(defs::spoil(&d, &mut rng).filter(|_| !d.expect.is_bad() && d.text.parse::<proc_macro2::TokenStream>().is_ok())),
            // Another definition of the same name.
            _ => {
                let o = rng.pick(&pool).clone();
                pool.push(rename(&d, "Same"));
                pool.push(rename(&o, "Same"));
            }
        }
    }
    // The same item under two macros (`derive(Parser, Args)` on one type).
    if rng.pct(10) {
        let mut d = rng.pick(&pool).clone();
        if !d.expect.is_bad() {
            d.kind = rng.pick(&crate::expand::KINDS).to_string();
            pool.push(d);
        }
    }
    let threads = [1, 1, 2, 2, 3, 4][rng.below(6)];
    let clients: Vec<Vec<usize>> =
        (0..threads).map(|_| (0..rng.range(1, if threads == 1 { 10 } else { 5 })).map(|_| rng.below(pool.len())).collect()).collect();
    let mut wish: Vec<(u32, usize)> = if threads > 1 {
        (0..rng.range(1, 12)).map(|_| (rng.below(1 << 20) as u32, rng.below(threads))).collect()
    } else {
        vec![]
    };
    wish.sort();
    Case { defs: pool, clients, preempts: vec![], seed: rng.next(), wish }
}

/// Sound definitions and contradictory ones (C18).
pub fn make_contra(seed: u64, index: u64) -> Case {
    let mut rng = Rng::from_parts(&[seed, 0xC18, index]);
    let g = defs::generated(&mut rng);
    let mut pool: Vec<Def> = Vec::new();
    let n = rng.range(2, 8);
    for _ in 0..n {
        let d = Def { expect: Expect::Good, ..rng.pick(&g).clone() };
        // Something sound first, so that a contradiction meets more of its kind.
        let d = if rng.pct(40) { contra::inject(&d, &mut rng, true).unwrap_or(d) } else { d };
        let bad = if rng.pct(75) { contra::inject(&d, &mut rng, false) } else { None };
        if bad.is_none() || rng.pct(30) {
            pool.push(d);
        }
        pool.extend(bad);
    }
    let threads = [1, 1, 1, 2, 2, 3][rng.below(6)];
    let mut order: Vec<usize> = (0..pool.len()).collect();
    rng.shuffle(&mut order);
    let mut clients = vec![vec![]; threads];
    for d in order {
        clients[rng.below(threads)].push(d);
    }
    clients.retain(|c: &Vec<usize>| !c.is_empty());
    let threads = clients.len();
    let mut wish: Vec<(u32, usize)> = if threads > 1 {
        (0..rng.range(1, 8)).map(|_| (rng.below(1 << 20) as u32, rng.below(threads))).collect()
    } else {
        vec![]
    };
    wish.sort();
    Case { defs: pool, clients, preempts: vec![], seed: rng.next(), wish }
}

impl Case {
    pub fn to_text(&self, header: &str) -> String {
        let mut s = format!("{header}seed {:016x}\n", self.seed);
        for d in &self.defs {
            s += &format!("def {} {} {}\n", d.kind, d.expect.line(), d.text.replace('\\', "\\\\").replace('\n', "\\n"));
        }
        for c in &self.clients {
            s += "thread";
            for i in c {
                s += &format!(" {i}");
            }
            s += "\n";
        }
        for (at, c) in &self.preempts {
            s += &format!("preempt {at} {c}\n");
        }
        s
    }
    pub fn parse(t: &str) -> Option<Self> {
        let mut c = Case::default();
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "seed" => c.seed = u64::from_str_radix(r, 16).ok()?,
                "def" => {
                    let mut w = r.splitn(3, ' ');
                    let (kind, bad) = (w.next()?, w.next()?);
                    let mut text = String::new();
                    let mut it = w.next()?.chars();
                    while let Some(x) = it.next() {
                        text.push(match x {
                            '\\' => match it.next()? {
                                'n' => '\n',
                                y => y,
                            },
                            x => x,
                        });
                    }
                    c.defs.push(Def { kind: kind.into(), text, expect: Expect::parse(bad)? });
                }
                "thread" => c.clients.push(r.split_whitespace().map(|x| x.parse().ok()).collect::<Option<_>>()?),
                "preempt" => {
                    let (a, b) = r.split_once(' ')?;
                    c.preempts.push((a.parse().ok()?, b.parse().ok()?));
                }
                _ => {}
            }
        }
        Some(c)
    }
}
