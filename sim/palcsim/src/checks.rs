//! Which executions decide which property.

use crate::exec::{CaseSeen, HELP, RunSeen, SeenOut, StepSeen, help_ref, help_request, world};
use crate::r#gen::{self as g, FaultMix, Opts};
use crate::judge::{self, Class, Viol, judge_case};
use crate::plan::{Case, Fault, Plan, Render, Step};
use clispec::model::{self, ErrKind, Outcome};
use clispec::rng::{Rng, fnv};
use clispec::spec::*;
use simrt::source::Hint;
use std::sync::OnceLock;

/// What one evaluation is, and what makes it count as non-trivial.
pub fn rule(check: &str) -> &'static str {
    match check {
        "C01" => "a seeded argument line of a seeded definition, delivered with the stream ending at every position (up to 24), half of the cuts with a source that goes on delivering afterwards; non-trivial: the stream ended early or resumed after its end",
        "C02" => "a seeded line with seeded faults and surplus arguments behind the deciding one, delivered by honest and by misreporting sources; non-trivial: a fault took effect, the size estimate was wrong, or arguments were left over",
        "C03" => "a seeded line, with every ordinal (up to 12) of its conversions failing in turn, plus invalid values; non-trivial: a conversion failed",
        "C04" => "a seeded line under seeded conversion failures, early ends and transport faults, each repeated in one process under a counting allocator; non-trivial: a fault took effect",
        "C05" => "a seeded line and eight seeded interleavings of its producers; non-trivial: the interleaving differs from the first order",
        "C06" => "seeded sets of parses: concurrent under a seeded preemptive schedule, nested in one another's callbacks, one after another, with errors handed between clients; non-trivial: a preemption switched clients, a nested parse ran, or an earlier parse preceded",
        "C07" => "a seeded accepted line and its single losses and duplications plus seeded multiple losses, duplications and moves; non-trivial: a fault took effect",
        "C08" => "a seeded line under seeded damage of the arguments' bytes; non-trivial: a fault took effect",
        "C09" => "a seeded line of a definition with constraints, required arguments or defaults under seeded omissions and transport faults; non-trivial: the verdict depends on the finishing rules (a finishing error, or accepted after a fault)",
        "C10" => "a seeded line with a mode switch (`--`, subcommand name, free argument, help request) inserted at, or moved to, every position; non-trivial: the switch is in the stream at a position other than its original one",
        "C11" => "a seeded failing parse or help request rendered into sinks that fail at every offset (error messages) or at seeded offsets (help), and into seeded short-writing, interrupted and failing byte sinks; non-trivial: the sink's fault was reached",
        "C12" => "help of every reachable command with the formatting of the n-th default value, or text given as an expression, failing after k bytes, for every n and a range of k, each followed by an undisturbed request; non-trivial: the formatting failure was reached",
        "C13" => "a child process running the entry point on a seeded real argument vector with a seeded sequence of results of its writes to standard error, or closed descriptors; non-trivial: the process failed, asked for help, or a write fault was reached",
        "C15" => "a seeded line, partly damaged, lost or failing in conversion, and seven ways in which the same named arguments can be written, bundled, attached, delimited and split over arguments; non-trivial: some argument was reframed",
        "C16" => "a seeded line of a definition with value types that have several conversions, valid, invalid and damaged values, with every ordinal (up to 6) of the conversions failing in turn; non-trivial: a value of such a type was converted or refused",
        "C17" => "seeded lines of a definition with value enums (seeded names and renamings), half of the values damaged in transit, and help requests; non-trivial: a value of an enum was read, or its default shown",
        "C19" => "a help request arriving at every position (up to 16) of a seeded line, partly damaged, of a seeded definition; non-trivial: it was answered with help",
        "C21" => "a seeded line of which a seeded part (arguments, or bytes of one) arrives n, 4n and 16n times, n from 32 to 1024, with conversions failing at the end; non-trivial: the grown part was consumed",
        "C22" => "a seeded parse under seeded faults three times over, each time with another environment, clock, process id, terminal, directory and randomness; non-trivial: not the first of the three",
        _ => "",
    }
}

struct Facts {
    constrained: Vec<usize>,
    with_defaults: Vec<usize>,
    converting: Vec<usize>,
    switching: Vec<usize>,
    ambiguous: Vec<usize>,
    enums: Vec<usize>,
    /// Named arguments that ignore case, or with names of more than one byte a character.
    odd_names: Vec<usize>,
}

fn facts() -> &'static Facts {
    static F: OnceLock<Facts> = OnceLock::new();
    F.get_or_init(|| {
        let mut f = Facts { constrained: vec![], with_defaults: vec![], converting: vec![], switching: vec![], ambiguous: vec![], enums: vec![], odd_names: vec![] };
        for &i in &world().available {
            let root = &world().cmds[i];
            let (mut con, mut def, mut conv, mut sw) = (0, false, false, false);
            let (mut amb, mut en, mut odd) = (false, false, false);
            root.visit_cmds(&mut |c| {
                for a in c.args() {
                    con += a.requires.len() + a.conflicts.len() + usize::from(a.exclusive);
                    con += usize::from(a.must_be_given());
                    def |= matches!(a.default, Dflt::Typed { .. }) && a.ty.is_probe() && !a.hide;
                    conv |= a.ty.is_probe() && a.kind != Kind::Bool;
                    amb |= a.ty.ambiguous() && a.kind != Kind::Bool;
                    en |= a.ty.enum_table().is_some() && a.kind != Kind::Bool;
                    sw |= a.last || a.trailing;
                    odd |= a.is_named() && a.kind != Kind::Bool
                        && (a.ignore_case || a.short_name().into_iter().chain(a.short_alias.iter().copied()).any(|c| !c.is_ascii()));
                }
                sw |= c.sub().is_some();
                def |= c.after_runtime || matches!(c.long_about, Some(clispec::spec::About::Runtime(_)));
            });
            if con > 1 {
                f.constrained.push(i);
            }
            if def {
                f.with_defaults.push(i);
            }
            if conv {
                f.converting.push(i);
            }
            if sw {
                f.switching.push(i);
            }
            if amb {
                f.ambiguous.push(i);
            }
            if en {
                f.enums.push(i);
            }
            if odd {
                f.odd_names.push(i);
            }
        }
        f
    })
}

fn pick_cli(r: &mut Rng, from: &[usize]) -> usize {
    if from.is_empty() {
        return any_cli(r);
    }
    *r.pick(from)
}
fn any_cli(r: &mut Rng) -> usize {
    *r.pick(&world().available)
}

fn faults(r: &mut Rng, items: &[Vec<u8>], w: &g::Words, mix: FaultMix, n: usize) -> Vec<Fault> {
    // Later faults see the stream as earlier ones left it.
    let mut p = Plan { items: items.to_vec(), ..Plan::default() };
    for _ in 0..n {
        let now = p.deliver().items;
        let f = g::item_fault(r, &now, w, mix);
        p.faults.push(f);
    }
    p.faults
}

/// More values than a small counter holds, once in a while.
fn huge(r: &mut Rng, o: &mut Opts) -> bool {
    let yes = r.below(1500) == 0;
    if yes {
        if r.pct(60) { o.max_list = 70_000 } else { o.max_frag = 70_000 }
        o.weird = 0;
    }
    yes
}

/// A long line, but not of lists of lists without end.
fn huge_line(r: &mut Rng, root: &clispec::spec::Cmd, o: &mut Opts) -> Vec<Vec<u8>> {
    loop {
        let items = g::good_line(r, root, o, HELP).items();
        if items.iter().map(|i| i.len() + 1).sum::<usize>() < 2 << 20 {
            return items;
        }
        o.max_list = (o.max_list / 4).max(1);
        o.max_frag = (o.max_frag / 4).max(1);
    }
}

fn random_plan(r: &mut Rng, cli: usize) -> Plan {
    let root = &world().cmds[cli];
    let o = Opts::random(r);
    let l = if r.pct(50) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &o) };
    let items = l.items();
    let w = g::words(root);
    let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
    let mut p = Plan { cli, faults: faults(r, &items, &w, FaultMix::Any, n), items, ..Plan::default() };
    if r.pct(15) {
        p.faults.push(Fault::Eof(r.below(p.items.len() + 1)));
    }
    if r.pct(15) {
        p.faults.push(Fault::ConvFail(r.below(4)));
    }
    if HELP && r.pct(10) {
        let at = r.range(1, p.items.len().max(1)).min(p.items.len());
        p.items.insert(at, r.pick(&["--help", "-h"]).as_bytes().to_vec());
    }
    if r.pct(30) {
        p.renders.push(Render::Full);
    }
    p
}

pub fn make(check: &str, seed: u64, index: u64) -> Case {
    let mut rng = Rng::from_parts(&[seed, fnv(0, check.as_bytes()), index, u64::from(HELP)]);
    let r = &mut rng;
    match check {
        "C01" => {
            let cli = any_cli(r);
            let root = &world().cmds[cli];
            let o = Opts { bad: 0, ..Opts::random(r) };
            let mut items = g::good_line(r, root, &o, HELP).items();
            let w = g::words(root);
            if r.pct(25) {
                let f = faults(r, &items, &w, FaultMix::Any, 1);
                items = Plan { items, faults: f, ..Plan::default() }.deliver().items;
            }
            // Something worthwhile behind the end.
            for _ in 0..r.below(3) {
                items.push(g::token(r, &w));
            }
            let n = items.len();
            let mut cuts: Vec<usize> = (0..=n).collect();
            if cuts.len() > 24 {
                r.shuffle(&mut cuts);
                cuts.truncate(24);
                cuts.sort_unstable();
            }
            let mut plans = Vec::new();
            for k in cuts {
                let mut f = vec![Fault::Eof(k)];
                if r.pct(50) {
                    f.push(Fault::Resume);
                }
                plans.push(Plan { cli, items: items.clone(), faults: f, ..Plan::default() });
            }
            Case::single(plans)
        }
        "C02" => {
            let cli = any_cli(r);
            let root = &world().cmds[cli];
            let w = g::words(root);
            let mut p = random_plan(r, cli);
            for _ in 0..r.below(5) {
                p.items.push(g::token(r, &w));
            }
            p.renders.clear();
            let mut plans = vec![p.clone()];
            let mut hints = [Hint::None, Hint::Zero, Hint::Low, Hint::High, Hint::Huge];
            r.shuffle(&mut hints);
            for h in &hints[..2] {
                let mut q = p.clone();
                q.faults.push(Fault::Hint(*h));
                plans.push(q);
            }
            Case::single(plans)
        }
        "C03" => {
            let cli = pick_cli(r, &facts().converting);
            let root = &world().cmds[cli];
            let mut o = Opts { density: *r.pick(&[20, 50, 80]), ..Opts::random(r) };
            if huge(r, &mut o) {
                let items = huge_line(r, root, &mut Opts { bad: 0, ..o });
                let e = model::run(root, &items, None, HELP);
                let faults = if r.pct(70) { vec![Fault::ConvFail(r.below(e.convs.max(1)))] } else { vec![] };
                return Case::single(vec![Plan { cli, items, faults, ..Plan::default() }]);
            }
            let line = g::good_line(r, root, &Opts { bad: 0, ..o }, HELP);
            let line = if r.pct(20) { g::line(r, root, &Opts { bad: 15, ..o }) } else { line };
            let mut items = line.items();
            let w = g::words(root);
            if r.pct(30) {
                let f = faults(r, &items, &w, FaultMix::Any, 1);
                items = Plan { items, faults: f, ..Plan::default() }.deliver().items;
            }
            let e = model::run(root, &items, None, HELP);
            let mut plans = vec![Plan { cli, items: items.clone(), ..Plan::default() }];
            for k in 0..e.convs.min(12) {
                plans.push(Plan {
                    cli,
                    items: items.clone(),
                    faults: vec![Fault::ConvFail(k)],
                    renders: vec![Render::Source],
                    ..Plan::default()
                });
            }
            Case::single(plans)
        }
        "C04" => {
            let mut plans = Vec::new();
            for _ in 0..2 {
                let cli = if r.pct(70) { pick_cli(r, &facts().converting) } else { any_cli(r) };
                let mut p = random_plan(r, cli);
                let e = model::run(&world().cmds[cli], p.deliver().delivered(), None, HELP);
                if e.convs > 0 && r.pct(60) {
                    p.faults.retain(|f| !matches!(f, Fault::ConvFail(_)));
                    p.faults.push(Fault::ConvFail(r.below(e.convs)));
                }
                p.renders = match r.below(4) {
                    0 => vec![Render::Debug, Render::Source],
                    1 => vec![Render::IntoHelp],
                    2 => vec![Render::FmtFail { at: r.below(80), take: r.pct(50) }],
                    _ => vec![],
                };
                for _ in 0..3 {
                    plans.push(p.clone());
                }
            }
            // The same with a character of an argument different each time: what is kept for each
            // of the contents seen adds up, too.
            let p = r.pick(&plans).clone();
            let at: Vec<(usize, usize)> = (0..p.items.len())
                .flat_map(|i| (0..p.items[i].len()).map(move |b| (i, b)))
                .filter(|&(i, b)| p.items[i][b].is_ascii_alphanumeric())
                .collect();
            if !at.is_empty() && r.pct(50) {
                let (i, b) = *r.pick(&at);
                let base = match p.items[i][b] {
                    b'0'..=b'9' => b'0',
                    b'a'..=b'z' => b'a',
                    _ => b'A',
                };
                for n in 0..10 {
                    let mut q = p.clone();
                    q.items[i][b] = base + n;
                    plans.push(q);
                }
            }
            Case::single(plans)
        }
        "C05" => {
            let cli = any_cli(r);
            let root = &world().cmds[cli];
            let o = Opts { density: *r.pick(&[20, 40, 70]), ..Opts::random(r) };
            let l = if r.pct(80) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &o) };
            let mut plans = vec![Plan { cli, items: l.items(), ..Plan::default() }];
            for _ in 0..8 {
                plans.push(Plan { cli, items: l.shuffled(r).items(), ..Plan::default() });
            }
            Case::single(plans)
        }
        "C06" => make_c06(r),
        "C07" => {
            let cli = any_cli(r);
            let root = &world().cmds[cli];
            let mut o = Opts { bad: 0, ..Opts::random(r) };
            if huge(r, &mut o) {
                let items = huge_line(r, root, &mut o);
                return Case::single(vec![Plan { cli, items, ..Plan::default() }]);
            }
            let items = g::good_line(r, root, &o, HELP).items();
            let w = g::words(root);
            let n = items.len();
            let mut plans = vec![Plan { cli, items: items.clone(), ..Plan::default() }];
            let mut singles: Vec<Fault> =
                (1..n).flat_map(|i| [Fault::Lose(i), Fault::Dup(i)]).collect();
            // The same inside of a bundle: a letter may come twice.
            for (i, x) in items.iter().enumerate().skip(1) {
                if x.len() > 1 && x.len() < 12 && x[0] == b'-' && x[1] != b'-' {
                    singles.extend((1..x.len()).map(|b| Fault::Stretch(i, b, 1, 2)));
                }
            }
            r.shuffle(&mut singles);
            singles.truncate(16);
            for f in singles {
                plans.push(Plan { cli, items: items.clone(), faults: vec![f], ..Plan::default() });
            }
            for _ in 0..6 {
                let k = r.range(1, 4);
                let f = faults(r, &items, &w, FaultMix::Transport, k);
                plans.push(Plan { cli, items: items.clone(), faults: f, ..Plan::default() });
            }
            Case::single(plans)
        }
        "C08" => {
            let cli = any_cli(r);
            let root = &world().cmds[cli];
            let o = Opts { weird: *r.pick(&[5, 20, 50]), ..Opts::random(r) };
            let items = if r.pct(70) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &o) }.items();
            let w = g::words(root);
            let mut plans = Vec::new();
            for _ in 0..12 {
                let k = *r.pick(&[1, 1, 1, 2, 3]);
                let mut f = faults(r, &items, &w, FaultMix::Bytes, k);
                if r.pct(15) {
                    f.extend(faults(r, &items, &w, FaultMix::Any, 1));
                }
                if r.pct(2) {
                    let big = vec![*r.pick(&[b'-', b'a', b'=', 0xc3, b'\n']); r.range(5_000, 60_000)];
                    f.push(Fault::Insert(r.range(1, items.len()), big));
                }
                plans.push(Plan { cli, items: items.clone(), faults: f, ..Plan::default() });
            }
            Case::single(plans)
        }
        "C09" => {
            let cli = pick_cli(r, &facts().constrained);
            let root = &world().cmds[cli];
            let w = g::words(root);
            let mut plans = Vec::new();
            for _ in 0..10 {
                let o = Opts { bad: 0, valid: r.pct(50), density: *r.pick(&[5, 15, 30, 60]), ..Opts::random(r) };
                let l = g::line(r, root, &o);
                let l = if r.pct(30) { l.shuffled(r) } else { l };
                let items = l.items();
                let n = *r.pick(&[0, 0, 1, 1, 2]);
                let f = if r.pct(70) {
                    (0..n).map(|_| Fault::Lose(r.range(1, items.len()))).collect()
                } else {
                    faults(r, &items, &w, FaultMix::Transport, n)
                };
                plans.push(Plan { cli, items, faults: f, ..Plan::default() });
            }
            Case::single(plans)
        }
        "C10" => {
            let cli = if r.pct(85) { pick_cli(r, &facts().switching) } else { any_cli(r) };
            let root = &world().cmds[cli];
            let o = Opts { bad: 0, ..Opts::random(r) };
            let items = g::good_line(r, root, &o, HELP).items();
            let w = g::words(root);
            let n = items.len();
            let mut plans = vec![Plan { cli, items: items.clone(), ..Plan::default() }];
            // An existing switch arriving elsewhere, twice or not at all.
            let existing: Vec<usize> = (1..n)
                .filter(|&i| items[i] == b"--" || w.subs.iter().any(|s| s.as_bytes() == items[i]))
                .collect();
            let mut add = |f: Vec<Fault>| {
                plans.push(Plan { cli, items: items.clone(), faults: f, ..Plan::default() });
            };
            if !existing.is_empty() && r.pct(60) {
                let i = *r.pick(&existing);
                add(vec![Fault::Lose(i)]);
                add(vec![Fault::Dup(i)]);
                for j in 1..n.min(20) {
                    add(vec![Fault::Move(i, j)]);
                }
            } else {
                let tok: Vec<u8> = match r.below(10) {
                    0..=3 => b"--".to_vec(),
                    4..=6 if !w.subs.is_empty() => r.pick(&w.subs).clone().into_bytes(),
                    7 => r.pick(&["--help", "-h"]).as_bytes().to_vec(),
                    8 => g::token(r, &w),
                    _ => b"free".to_vec(),
                };
                for j in 1..=n.min(20) {
                    let mut f = vec![Fault::Insert(j, tok.clone())];
                    if r.pct(20) {
                        f.push(Fault::Insert(r.range(1, n), g::token(r, &w)));
                    }
                    add(f);
                }
            }
            Case::single(plans)
        }
        "C11" => make_c11(r),
        "C12" => make_c12(r),
        "C13" => {
            let cli = any_cli(r);
            let mut p = random_plan(r, cli);
            p.renders.clear();
            if r.pct(35) {
                let o = Opts { bad: 0, ..Opts::random(r) };
                p.items = g::good_line(r, &world().cmds[cli], &o, HELP).items();
                p.faults.clear();
            }
            // Real processes get the arguments as they are, without NUL.
            p.faults.retain(|f| !matches!(f, Fault::Resume | Fault::Hint(_)));
            let d = p.deliver();
            let mut items: Vec<Vec<u8>> = d.delivered().to_vec();
            for i in &mut items {
                i.retain(|&b| b != 0);
                i.truncate(20_000);
            }
            if items.is_empty() {
                items.push(b"prog".to_vec());
            }
            // A message longer than any buffer.
            if r.pct(6) && items.len() > 1 {
                for _ in 0..6 {
                    let mut more = items.clone();
                    let k = if r.pct(50) { items.len() - 1 } else { 1 + r.below(items.len() - 1) };
                    let n = r.range(9_000, 128_000);
                    let with = *r.pick(&[b'a', b'-', b'7', b'\n']);
                    more[k].resize(n, with);
                    if matches!(model::run(&world().cmds[cli], &more, None, HELP).outcome, model::Outcome::Err(v) if v[0].text.len() >= n) {
                        items = more;
                        break;
                    }
                }
            }
            let mut q = Plan { cli, items, ..Plan::default() };
            q.faults.extend(p.faults.into_iter().filter(|f| matches!(f, Fault::ConvFail(_))));
            // What writes to standard error do; the first element says which descriptors are closed.
            let closed = if r.pct(10) { r.range(1, 7) as i32 } else { 0 };
            let mut script = vec![closed];
            if r.pct(75) {
                for _ in 0..r.below(7) {
                    script.push(match r.below(10) {
                        0..=2 => 1 + r.below(12) as i32,
                        3 | 4 => -1,
                        5 => 0,
                        6 => -2,
                        7 => -3,
                        8 => -4,
                        _ => -5,
                    });
                }
                if r.pct(30) {
                    if r.pct(50) {
                        script.truncate(1);
                    }
                    script.push(*r.pick(&[-20, -22, -23, -24, -25]));
                }
            }
            q.renders = vec![Render::Io(script)];
            Case::single(vec![q])
        }
        "C15" => {
            let cli = if r.pct(35) { pick_cli(r, &facts().odd_names) } else { any_cli(r) };
            let root = &world().cmds[cli];
            let o = Opts { density: *r.pick(&[20, 40, 70]), weird: *r.pick(&[0, 10, 40]), ..Opts::random(r) };
            let items = if r.pct(75) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &o) }.items();
            let w = g::words(root);
            let n = *r.pick(&[0, 0, 0, 1, 1, 2]);
            let mut p = Plan { cli, faults: faults(r, &items, &w, FaultMix::Any, n), items, ..Plan::default() };
            p.items = p.deliver().items;
            p.faults.clear();
            if r.pct(10) {
                p.items.truncate(r.below(p.items.len() + 1));
            }
            let mut conv_fail = None;
            if r.pct(20) {
                let k = model::run(root, &p.items, None, HELP).convs;
                conv_fail = (k > 0).then(|| r.below(k));
            }
            let (_, said) = model::run_traced(root, &p.items, conv_fail, HELP);
            p.faults.extend(conv_fail.map(Fault::ConvFail));
            let mut plans = vec![p.clone()];
            for _ in 0..7 {
                let mut q = p.clone();
                let mut f = g::reframe(r, &said);
                f.append(&mut q.faults);
                q.faults = f;
                plans.push(q);
            }
            Case::single(plans)
        }
        "C16" => {
            let cli = pick_cli(r, &facts().ambiguous);
            let root = &world().cmds[cli];
            let o = Opts { density: *r.pick(&[20, 50, 80]), weird: *r.pick(&[5, 30, 60]), ..Opts::random(r) };
            let w = g::words(root);
            let mut plans = Vec::new();
            for _ in 0..3 {
                let items = if r.pct(70) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &Opts { bad: 15, ..o }) }.items();
                let f = if r.pct(30) { faults(r, &items, &w, FaultMix::Bytes, 1) } else { vec![] };
                let p = Plan { cli, faults: f, items, ..Plan::default() };
                let e = model::run(root, p.deliver().delivered(), None, HELP);
                plans.push(p.clone());
                for k in 0..e.convs.min(6) {
                    let mut p = p.clone();
                    p.faults.push(Fault::ConvFail(k));
                    plans.push(p);
                }
            }
            if HELP {
                let mut p = plans[0].clone();
                p.items.insert(1.min(p.items.len()), b"--help".to_vec());
                plans.push(p);
            }
            Case::single(plans)
        }
        "C17" => {
            let cli = pick_cli(r, &facts().enums);
            let root = &world().cmds[cli];
            let o = Opts { density: *r.pick(&[20, 50, 80]), weird: 0, bad: 0, ..Opts::random(r) };
            let w = g::words(root);
            let mut plans = Vec::new();
            for _ in 0..8 {
                let items = match r.below(4) {
                    0 => g::line(r, root, &Opts { weird: 50, ..o }),
                    _ => g::good_line(r, root, &o, HELP),
                }
                .items();
                let (_, said) = model::run_traced(root, &items, None, HELP);
                let f = if r.pct(50) { g::misname(r, &said) } else { vec![] };
                let f = if r.pct(10) { faults(r, &items, &w, FaultMix::Bytes, 1) } else { f };
                plans.push(Plan { cli, faults: f, items, ..Plan::default() });
            }
            if HELP {
                let mut paths = Vec::new();
                all_paths(root, &mut vec![], &mut paths);
                let a0 = g::argv0(r);
                if let Some(items) = help_request(root, r.pick(&paths), &a0) {
                    plans.push(Plan { cli, items, ..Plan::default() });
                }
            }
            Case::single(plans)
        }
        "C19" => {
            let cli = any_cli(r);
            let root = &world().cmds[cli];
            let o = Opts::random(r);
            let items = if r.pct(70) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &o) }.items();
            let w = g::words(root);
            let f = if r.pct(30) { faults(r, &items, &w, FaultMix::Any, 1) } else { vec![] };
            let ask: Vec<u8> = r.pick(&["--help", "--help", "-h", "--help=x", "-hx"]).as_bytes().to_vec();
            let mut at: Vec<usize> = (1..=items.len()).collect();
            if at.len() > 16 {
                r.shuffle(&mut at);
                at.truncate(16);
            }
            let plans = at
                .into_iter()
                .map(|i| {
                    let mut items = items.clone();
                    items.insert(i, ask.clone());
                    let renders = if r.pct(20) { vec![Render::IntoHelp] } else { vec![] };
                    Plan { cli, items, faults: f.clone(), renders, ..Plan::default() }
                })
                .collect();
            Case::single(plans)
        }
        "C21" => make_c21(r),
        "C22" => {
            let cli = any_cli(r);
            let mut p = random_plan(r, cli);
            if r.pct(30) {
                p.renders.push(Render::Io((0..r.below(6)).map(|_| r.below(9) as i32 - 1).collect()));
            }
            if r.pct(30) {
                p.renders.push(Render::IntoHelp);
            }
            Case::single(vec![p.clone(), p.clone(), p])
        }
        _ => panic!("no such check: {check}"),
    }
}

fn make_c21(r: &mut Rng) -> Case {
    let cli = any_cli(r);
    let root = &world().cmds[cli];
    let o = Opts { bad: 0, weird: *r.pick(&[0, 5, 20]), ..Opts::random(r) };
    let n = *r.pick(&[64usize, 64, 128, 128, 256, 1024]);
    for _ in 0..12 {
        let mut items = if r.pct(80) { g::good_line(r, root, &o, HELP) } else { g::line(r, root, &o) }.items();
        let w = g::words(root);
        if r.pct(15) {
            let at = r.range(1, items.len());
            items.insert(at, g::token(r, &w));
        }
        let grow = |r: &mut Rng, t: usize, at: (usize, usize, usize, usize), rep: bool| {
            _ = r;
            if rep { Fault::Repeat(at.0, at.1, t) } else { Fault::Stretch(at.0, at.2, at.3, t) }
        };
        let stretch = r.pct(40);
        for k in 0..16 {
            let rep = !stretch && k < 14;
            let i = if rep { r.range(1, items.len()) } else { r.below(items.len()) };
            let Some(item) = items.get(i) else { continue };
            let k = r.range(1, 4).min(items.len() - i);
            let from = r.below(item.len() + 1);
            let len = r.range(1, 5).min(item.len() - from);
            if !rep && len == 0 {
                continue;
            }
            // The grown part must fit in memory several times over, escaped.
            let unit: usize = if rep { items[i..i + k].iter().map(|x| x.len() + 1).sum() } else { len };
            if unit * 16 * n > 4 << 20 {
                continue;
            }
            let at = (i, k, from, len);
            let plan = |r: &mut Rng, t: usize| Plan {
                cli,
                items: items.clone(),
                faults: vec![grow(r, t, at, rep)],
                ..Plan::default()
            };
            let first = plan(r, n);
            let d = first.deliver();
            let e = model::run(root, d.delivered(), None, HELP);
            let pulled = e.events.iter().filter(|x| matches!(x, model::Ev::Pull(_))).count();
            let (ok, all) = (matches!(e.outcome, Outcome::Ok(_)), pulled > if rep { i + k * n - 1 } else { i });
            if !all || matches!(e.outcome, Outcome::Help { .. }) || (!ok && !r.pct(25)) {
                continue;
            }
            let fail = r.pct(20);
            let plans = [n, 4 * n, 16 * n]
                .into_iter()
                .map(|t| {
                    let mut p = plan(r, t);
                    if fail {
                        let e = model::run(root, p.deliver().delivered(), None, HELP);
                        p.faults.extend(e.convs.checked_sub(1).map(Fault::ConvFail));
                    }
                    p
                })
                .collect();
            return Case::single(plans);
        }
    }
    Case::single(vec![])
}

fn make_c06(r: &mut Rng) -> Case {
    let pool: Vec<usize> = (0..r.range(1, 3)).map(|_| any_cli(r)).collect();
    let mut pl = |r: &mut Rng| {
        let cli = *r.pick(&pool);
        let mut p = random_plan(r, cli);
        if r.pct(30) {
            p.renders.push(Render::Io(vec![1 + r.below(9) as i32, -1, 3]));
        }
        p
    };
    let mode = r.below(10);
    let nest = |r: &mut Rng, p: &mut Plan, pl: &mut dyn FnMut(&mut Rng) -> Plan| {
        for _ in 0..r.range(1, 3) {
            let mut inner = pl(r);
            if r.pct(25) {
                let i2 = pl(r);
                inner.nested.push((r.below(6), i2));
            }
            p.nested.push((r.below(12), inner));
        }
    };
    if mode < 2 {
        // Only nesting.
        let mut p = pl(r);
        nest(r, &mut p, &mut pl);
        return Case::single(vec![p, pl(r)]);
    }
    if mode < 4 {
        // Only history.
        let n = r.range(2, 8);
        let mut plans: Vec<Plan> = (0..n).map(|_| pl(r)).collect();
        let again = plans[0].clone();
        plans.push(again);
        return Case::single(plans);
    }
    let n = r.range(2, 4);
    let mut c = Case::default();
    let same = r.pct(30).then(|| pl(r));
    for _ in 0..n {
        let mut steps = Vec::new();
        for _ in 0..r.range(1, 3) {
            let mut p = same.clone().unwrap_or_else(|| pl(r));
            if same.is_some() {
                p.items[0] = g::argv0(r);
            }
            if r.pct(20) {
                nest(r, &mut p, &mut pl);
            }
            steps.push(Step::Run(p));
        }
        c.clients.push(steps);
    }
    // Errors handed over.
    for _ in 0..r.below(3) {
        let (from, to) = (r.below(n), r.below(n));
        if from != to {
            let step = r.below(c.clients[from].len());
            let mut renders = vec![Render::Full];
            if r.pct(30) {
                renders.push(Render::Io(vec![5, 1, -1]));
            }
            // A step kept for another client must not be consumed where it was made.
            if let Step::Run(p) = &mut c.clients[from][step] {
                p.renders.retain(|x| *x != Render::IntoHelp);
                c.clients[to].push(Step::Take { client: from, step, renders });
            }
        }
    }
    let k = *r.pick(&[1, 2, 3, 5, 8, 16, 40]);
    c.fine = r.pct(60);
    let span = if c.fine {
        *r.pick(&[300u64, 1000, 3000, 10_000, 30_000])
    } else {
        *r.pick(&[20u64, 60, 150, 400, 1000])
    };
    let k = if c.fine && r.pct(50) { k * 8 } else { k };
    let mut at: Vec<u64> = (0..k).map(|_| 1 + r.below(span as usize) as u64).collect();
    at.sort_unstable();
    at.dedup();
    c.preempts = at.into_iter().map(|s| (s, r.below(n))).collect();
    c
}

fn make_c11(r: &mut Rng) -> Case {
    let cli = any_cli(r);
    let root = &world().cmds[cli];
    let mut p = random_plan(r, cli);
    p.renders.clear();
    // Prefer something that fails.
    for _ in 0..4 {
        let d = p.deliver();
        if !matches!(model::run(root, d.delivered(), d.conv_fail, HELP).outcome, Outcome::Ok(_)) {
            break;
        }
        let n = p.items.len();
        if r.pct(50) {
            let w = g::words(root);
            let x = g::junk(r, &w);
            p.faults.push(Fault::Insert(r.range(1, n.max(1)), x));
        } else {
            p = random_plan(r, cli);
            p.renders.clear();
        }
    }
    let d = p.deliver();
    let e = model::run(root, d.delivered(), d.conv_fail, HELP);
    let (len, all) = match &e.outcome {
        Outcome::Err(v) => (v[0].text.len(), true),
        Outcome::Help { path, .. } => {
            let l = help_ref(cli, path, "prog").map_or(200, |t| t.len());
            (l, false)
        }
        Outcome::Ok(_) => (10, false),
    };
    let mut v = Vec::new();
    if all && len <= 300 {
        for at in 0..=len {
            v.push(Render::FmtFail { at, take: r.pct(50) });
        }
    } else {
        for _ in 0..24 {
            v.push(Render::FmtFail { at: r.below(len + 2), take: r.pct(50) });
        }
    }
    for _ in 0..6 {
        let n = r.range(1, 8);
        let s = (0..n)
            .map(|_| match r.below(10) {
                0..=4 => 1 + r.below(20) as i32,
                5 | 6 => -1,
                7 => 0,
                _ => -2,
            })
            .collect();
        v.push(Render::Io(s));
    }
    if let Outcome::Err(es) = &e.outcome
        && es.iter().any(|x| x.source.as_ref().is_some_and(|s| s.probe.is_some()))
    {
        for n in 0..13 {
            v.push(Render::ErrFail(n));
        }
        for _ in 0..3 {
            v.push(Render::DebugErrFail(r.below(14)));
        }
    }
    for _ in 0..4 {
        v.push(Render::DebugFail { at: r.below(len + 40), take: r.pct(50) });
        v.push(Render::Custom { at: r.below(len + 10), take: r.pct(50) });
    }
    v.push(Render::Debug);
    v.push(Render::Full);
    r.shuffle(&mut v);
    if r.pct(50) {
        v.push(Render::IntoHelp);
    }
    p.renders = v;
    Case::single(vec![p])
}

fn make_c12(r: &mut Rng) -> Case {
    let cli = pick_cli(r, &facts().with_defaults);
    let root = &world().cmds[cli];
    let a0 = g::argv0(r);
    // A reachable command.
    let mut paths: Vec<Vec<usize>> = Vec::new();
    all_paths(root, &mut vec![], &mut paths);
    let reqs: Vec<Vec<Vec<u8>>> =
        paths.iter().filter_map(|p| help_request(root, p, &a0)).collect();
    if reqs.is_empty() {
        return Case::single(vec![Plan { cli, items: vec![a0], ..Plan::default() }]);
    }
    let req = r.pick(&reqs).clone();
    let path = match model::run(root, &req, None, true).outcome {
        Outcome::Help { path, .. } => path,
        _ => unreachable!(),
    };
    let text = help_ref(cli, &path, "prog").unwrap_or_default();
    let mut last = root;
    for &i in &path {
        last = &last.sub().unwrap().variants[i].cmd;
    }
    let runtime = |c: &Cmd| matches!(c.long_about, Some(clispec::spec::About::Runtime(_)));
    let subs = last.sub().map_or(0, |s| s.variants.iter().filter(|v| runtime(&v.cmd)).count());
    let n = text.matches("[default: ").count()
        + usize::from(runtime(last))
        + usize::from(last.after_runtime)
        + subs;
    let n = n.min(10);
    let mut plans = vec![Plan { cli, items: req.clone(), ..Plan::default() }];
    for k in 0..n {
        for at in [0, 1, 2, 3, 5, 8, 100] {
            let renders = if r.pct(50) { vec![Render::IntoHelp] } else { vec![Render::Full] };
            plans.push(Plan {
                cli,
                items: req.clone(),
                faults: vec![Fault::DispFail(k, at)],
                renders,
                ..Plan::default()
            });
            if r.pct(20) {
                plans.push(Plan { cli, items: req.clone(), ..Plan::default() });
            }
        }
    }
    plans.push(Plan { cli, items: req, ..Plan::default() });
    Case::single(plans)
}

pub fn all_paths(c: &Cmd, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    if let Some(s) = c.sub() {
        for (i, v) in s.variants.iter().enumerate() {
            at.push(i);
            all_paths(&v.cmd, at, out);
            at.pop();
        }
    }
}

const OUTCOME: [Class; 8] = [
    Class::Accepted,
    Class::Refused,
    Class::Result,
    Class::Message,
    Class::Source,
    Class::HelpDue,
    Class::HelpText,
    Class::Panic,
];

fn runs(seen: &CaseSeen) -> impl Iterator<Item = (usize, usize, &RunSeen)> {
    seen.steps.iter().enumerate().flat_map(|(c, s)| {
        s.iter().enumerate().filter_map(move |(k, s)| match s {
            StepSeen::Run(r) => Some((c, k, &**r)),
            _ => None,
        })
    })
}

/// The violations of this property shown by this execution.
pub fn verdict(check: &str, case: &Case, seen: &CaseSeen) -> Vec<Viol> {
    let all = || judge_case(case, seen);
    let keep = |cs: &[Class]| all().into_iter().filter(|v| cs.contains(&v.class)).collect::<Vec<_>>();
    let of = |v: &Viol| match &seen.steps[v.at.0][v.at.1] {
        StepSeen::Run(r) => Some(&**r),
        _ => None,
    };
    match check {
        "C01" => {
            let mut v = keep(&OUTCOME);
            v.extend(keep(&[Class::AfterEnd]));
            v
        }
        "C02" => {
            let mut v = keep(&[Class::Pulls, Class::Order, Class::Panic]);
            let s: Vec<&RunSeen> = runs(seen).map(|x| x.2).collect();
            for (k, x) in s.iter().enumerate().skip(1) {
                if canonical(x) != canonical(s[0]) {
                    v.push(Viol {
                        class: Class::Differs,
                        msg: format!("with another size estimate: {} instead of {}", canonical(x), canonical(s[0])),
                        at: (0, k),
                    });
                }
            }
            v
        }
        "C03" => all()
            .into_iter()
            .filter(|v| match v.class {
                Class::Conv | Class::Order | Class::Source | Class::Panic => true,
                // Wrong message, acceptance or requests where a conversion failed.
                Class::Message | Class::Accepted | Class::HelpDue | Class::Pulls => of(v).is_some_and(|r| {
                    matches!(&r.expected.outcome, Outcome::Err(e) if e.iter().any(|e| e.kind == ErrKind::Invalid))
                }),
                _ => false,
            })
            .collect(),
        "C04" => {
            let mut v = keep(&[Class::Ledger, Class::Panic]);
            // Memory: only what is lost again and again.
            let s: Vec<&RunSeen> = runs(seen).map(|x| x.2).collect();
            let leaks = |k: usize| s[k].leak.0 > 0 || s[k].leak.1 > 0;
            for x in keep(&[Class::Leak]) {
                let k = x.at.1;
                let again = k >= 2 && leaks(k - 1) && s[k].plan == s[k - 1].plan && s[k].plan == s[k - 2].plan;
                let like = |j: usize| {
                    let (a, b) = (&s[j].plan, &s[j - 1].plan);
                    leaks(j - 1) && a.cli == b.cli && a.items != b.items && a.items.len() == b.items.len() && a.faults == b.faults
                };
                if again || k >= 5 && (k - 4..=k).all(like) {
                    v.push(x);
                }
            }
            v
        }
        "C05" => {
            let mut v = keep(&[Class::Panic]);
            let s: Vec<&RunSeen> = runs(seen).map(|x| x.2).collect();
            for (k, x) in s.iter().enumerate().skip(1) {
                if judge::same_expectation(s[0], x) && !judge::outcomes_agree(s[0], x) {
                    v.push(Viol {
                        class: Class::Differs,
                        msg: format!("another interleaving gave {} instead of {}", canonical(x), canonical(s[0])),
                        at: (0, k),
                    });
                }
            }
            v
        }
        "C06" => {
            let mut v = Vec::new();
            for x in all() {
                let counts = OUTCOME.contains(&x.class)
                    || matches!(x.class, Class::Pulls | Class::Conv | Class::Order | Class::Differs | Class::Sink);
                if !counts {
                    continue;
                }
                if x.class == Class::Differs {
                    v.push(x);
                    continue;
                }
                // The same parses, each alone in a fresh process.
                let Some(r) = of(&x) else {
                    v.push(x);
                    continue;
                };
                if let Some(d) = differs_alone(r) {
                    v.push(Viol { class: Class::Differs, msg: d, at: x.at });
                }
            }
            v.dedup_by_key(|v| v.at);
            v
        }
        "C07" | "C10" => keep(&OUTCOME),
        "C08" => keep(&OUTCOME),
        "C09" => all()
            .into_iter()
            .filter(|v| OUTCOME.contains(&v.class))
            .filter(|v| {
                of(v).is_some_and(|r| match &r.expected.outcome {
                    Outcome::Ok(_) => true,
                    Outcome::Err(e) => e[0].finishing,
                    Outcome::Help { .. } => false,
                })
            })
            .collect(),
        "C11" => keep(&[Class::Sink, Class::Differs, Class::Panic]),
        "C12" => keep(&[Class::HelpText, Class::HelpDue, Class::Panic]),
        "C15" => {
            let mut v = keep(&[Class::Panic]);
            let s: Vec<&RunSeen> = runs(seen).map(|x| x.2).collect();
            for (k, x) in s.iter().enumerate().skip(1) {
                if !judge::same_meaning(s[0], x) {
                    continue;
                }
                if convs(x) != convs(s[0]) {
                    v.push(Viol {
                        class: Class::Differs,
                        msg: format!("written another way: conversions of {} instead of {}", convs(x), convs(s[0])),
                        at: (0, k),
                    });
                } else if !judge::outcomes_agree(s[0], x) {
                    v.push(Viol {
                        class: Class::Differs,
                        msg: format!("written another way: {} instead of {}", canonical(x), canonical(s[0])),
                        at: (0, k),
                    });
                }
            }
            v
        }
        "C16" => all()
            .into_iter()
            .filter(|v| match v.class {
                Class::HelpText | Class::HelpDue => false,
                Class::Conv | Class::HelpContent => true,
                c => OUTCOME.contains(&c),
            })
            .collect(),
        "C17" => {
            let mut v = keep(&OUTCOME);
            v.extend(keep(&[Class::HelpContent]));
            v
        }
        "C19" => {
            let mut v = keep(&[Class::HelpContent, Class::HelpDue, Class::Panic]);
            if let Some(r) = first(seen)
                && let Err(e) = long_help(r.plan.cli)
            {
                v.push(Viol { class: Class::HelpContent, msg: e, at: (0, 0) });
            }
            v
        }
        "C21" => {
            let mut v = keep(&[Class::Panic]);
            let s: Vec<&RunSeen> = runs(seen).map(|x| x.2).collect();
            if let [a, b, c] = s[..] {
                for (what, f) in COSTS {
                    let (lo, hi) = (f(b).saturating_sub(f(a)), f(c).saturating_sub(f(b)));
                    // The second step is four times the first, and either may take in more of
                    // the doublings of a growing buffer than the other.
                    let doubling = if what == "branches" { 0 } else { 64 * size(c).saturating_sub(size(b)) as u64 };
                    if hi > lo * 4 * 3 / 2 + 100_000 + doubling {
                        v.push(Viol {
                            class: Class::Cost,
                            msg: format!(
                                "{what}: {}, {} and {} for inputs of {}, {} and {} bytes: more than in proportion",
                                f(a), f(b), f(c), size(a), size(b), size(c)
                            ),
                            at: (0, 2),
                        });
                    }
                }
            }
            v
        }
        "C22" => {
            let mut v = keep(&OUTCOME);
            v.extend(keep(&[Class::Effect, Class::Pulls, Class::Conv, Class::Order]));
            let s: Vec<&RunSeen> = runs(seen).map(|x| x.2).collect();
            for (k, x) in s.iter().enumerate().skip(1) {
                if x.plan == s[0].plan && canonical(x) != canonical(s[0]) {
                    v.push(Viol {
                        class: Class::Differs,
                        msg: format!("in another environment: {} instead of {}", canonical(x), canonical(s[0])),
                        at: (0, k),
                    });
                }
            }
            v
        }
        _ => panic!("no such check: {check}"),
    }
}

/// The other way to get help: `render_long_help`.
fn long_help(cli: usize) -> Result<(), String> {
    let root = &world().cmds[cli];
    let a0 = ["prog", "/usr/bin/é x", "", ".."][cli % 4];
    let Some(f) = world().entries[cli].as_ref().and_then(|e| e.long_help) else { return Ok(()) };
    if !matches!(model::run(root, &[a0.into(), b"--help".to_vec()], None, true).outcome, Outcome::Help { .. }) {
        return Ok(());
    }
    static DONE: std::sync::Mutex<std::collections::BTreeMap<usize, Result<(), String>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let mut done = DONE.lock().unwrap();
    done.entry(cli)
        .or_insert_with(|| {
            let got = std::panic::catch_unwind(|| f(a0)).map_err(|_| "render_long_help panicked".to_string())?;
            let e = clispec::help::expected(root, &[], &model::program_name(a0.as_bytes()));
            if e.iter().any(|e| clispec::help::same_words(e, &got)) {
                Ok(())
            } else {
                Err(format!("render_long_help: {}", clispec::help::difference(&e[0], &got)))
            }
        })
        .clone()
}

/// The conversions made, in order.
fn convs(r: &RunSeen) -> String {
    r.events
        .iter()
        .filter_map(|e| match e {
            simrt::ctx::Event::Conv(t, b) => Some(format!("{t:?} {}", show_bytes(b))),
            _ => None,
        })
        .collect::<Vec<_>>()
        .join(", ")
}

type Cost = (&'static str, fn(&RunSeen) -> u64);
const COSTS: [Cost; 3] = [
    ("branches", |r| r.work.branches),
    ("bytes copied or compared", |r| r.work.moved),
    ("bytes allocated", |r| r.work.allocated),
];
fn size(r: &RunSeen) -> usize {
    r.items.iter().map(|i| i.len() + 1).sum()
}

fn differs_alone(r: &RunSeen) -> Option<String> {
    for n in &r.nested {
        if let Some(d) = differs_alone(n) {
            return Some(format!("in a nested parse: {d}"));
        }
    }
    let mut p = r.plan.clone();
    p.nested.clear();
    let alone = crate::orch::spawn_solo(&p)?;
    let here = canonical(r);
    (alone != here).then(|| format!("{here} instead of {alone} when run alone"))
}

/// The complete observable outcome, in one line.
pub fn canonical(r: &RunSeen) -> String {
    let mut s = match &r.out {
        SeenOut::Ok(o) => format!("accepted {}", o.show()),
        SeenOut::Panicked(m) => format!("panicked {m:?}"),
        SeenOut::Err { source, .. } => match (&r.help, &r.text) {
            (Some(h), _) => format!("help {h:?}"),
            (_, Some(t)) => format!("error {t:?} from {source:?}"),
            _ => format!("error from {source:?}"),
        },
    };
    for x in &r.renders {
        s += &format!(" {:?}={}:{}", x.op, x.ok, show_bytes(&x.got));
    }
    if let Some(m) = &r.render_panic {
        s += &format!(" rendering panicked {m:?}");
    }
    s.replace('\n', "\\n")
}

fn first(seen: &CaseSeen) -> Option<&RunSeen> {
    runs(seen).next().map(|x| x.2)
}

/// Did a value of such an argument arrive (or was help shown that has its default)?
fn met(r: &RunSeen, f: &dyn Fn(&Arg) -> bool) -> bool {
    let root = &world().cmds[r.plan.cli];
    if let Outcome::Help { path, .. } = &r.expected.outcome {
        let mut c = root;
        for &i in path {
            c = &c.sub().unwrap().variants[i].cmd;
        }
        return c.groups().iter().flat_map(|c| c.args()).any(|a| f(a) && a.default != Dflt::No);
    }
    let (_, said) = model::run_traced(root, &r.items[..r.delivered.min(r.items.len())], None, HELP);
    g::mentions(&said, f) || matches!(&r.expected.outcome, Outcome::Err(e) if e[0].kind == ErrKind::Invalid)
}

pub fn nontrivial(check: &str, case: &Case, seen: &CaseSeen, k: usize, r: &RunSeen) -> bool {
    let effective = !r.effective.is_empty() || r.conv_fault_fired || r.disp_fault.is_some();
    let early = r.delivered < r.items.len();
    match check {
        "C01" => early,
        "C02" => {
            effective
                || r.plan.faults.iter().any(|f| matches!(f, Fault::Hint(_)))
                || r.events.iter().filter(|e| matches!(e, simrt::ctx::Event::Pull(_))).count() < r.delivered
        }
        "C03" => r.conv_fault_fired
            || matches!(&r.expected.outcome, Outcome::Err(e) if e[0].kind == ErrKind::Invalid),
        "C04" => effective || early,
        "C15" => effective && first(seen).is_some_and(|f| judge::same_meaning(f, r)),
        "C05" => k > 0 && first(seen).is_some_and(|f| judge::same_expectation(f, r)) && case.plans().next().is_some_and(|p| p.items != r.plan.items),
        "C06" => seen.sched.fired > 0 || !r.nested.is_empty() || k > 0,
        "C07" | "C08" => effective,
        "C09" => match &r.expected.outcome {
            Outcome::Err(e) => e[0].finishing,
            Outcome::Ok(_) => effective,
            Outcome::Help { .. } => false,
        },
        "C10" => effective,
        "C11" => r.renders.iter().any(|x| x.fired && !x.ok),
        "C12" => r.disp_fault.is_some(),
        "C13" => true,
        "C16" => met(r, &|a| a.ty.ambiguous()),
        "C17" => met(r, &|a| a.ty.enum_table().is_some()),
        "C19" => matches!(r.expected.outcome, Outcome::Help { .. }),
        "C21" => effective,
        "C22" => k > 0,
        _ => false,
    }
}

/// Coarse shape of a run, for counting distinct behaviours.
pub fn shape(r: &RunSeen) -> u64 {
    let mut h = fnv(0, &(r.plan.cli as u64).to_le_bytes());
    for t in &r.expected.tags {
        h = fnv(h, t.as_bytes());
    }
    match &r.expected.outcome {
        Outcome::Ok(_) => h = fnv(h, b"ok"),
        Outcome::Err(e) => {
            for e in e {
                h = fnv(h, &[e.kind as u8]);
            }
        }
        Outcome::Help { path, .. } => {
            for p in path {
                h = fnv(h, &p.to_le_bytes());
            }
        }
    }
    for e in r.events.iter().take(64) {
        h = fnv(h, &[match e {
            simrt::ctx::Event::Pull(_) => 0,
            simrt::ctx::Event::PullEnd => 1,
            simrt::ctx::Event::PullAfterEnd(_) => 2,
            simrt::ctx::Event::Conv(t, _) => 10 + t.index(),
            simrt::ctx::Event::WrongConv(..) => 3,
            simrt::ctx::Event::Display(_) => 4,
            simrt::ctx::Event::SizeHint => 5,
            simrt::ctx::Event::Into(_) => 6,
        }]);
    }
    for f in &r.effective {
        h = fnv(h, f.as_bytes());
    }
    for x in r.renders.iter().filter(|x| x.fired) {
        h = fnv(h, x.op.fault_kind().unwrap_or("").as_bytes());
        h = fnv(h, &[(x.got.len() / 8) as u8]);
    }
    if let Some((b, n)) = &r.disp_fault {
        h = fnv(fnv(h, b), &n.to_le_bytes());
    }
    fnv(h, &[u8::from(r.conv_fault_fired)])
}
