//! Explicit, serialisable descriptions of simulated executions: everything a run does is in its
//! `Case`, so a replay file reproduces it exactly.

use clispec::spec::show_bytes;
use simrt::source::Hint;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Item faults: the argument stream as damaged in transit. Applied in order, to the items as
    /// they are at that point.
    Lose(usize),
    Dup(usize),
    Move(usize, usize),
    Flip(usize, usize, u8),
    Cut(usize, usize),
    Merge(usize),
    Split(usize, usize),
    Insert(usize, Vec<u8>),
    Replace(usize, Vec<u8>),
    /// Items `.0 .. .0 + .1` arrive `.2` times in a row.
    Repeat(usize, usize, usize),
    /// Bytes `.1 .. .1 + .2` of item `.0` arrive `.3` times in a row.
    Stretch(usize, usize, usize, usize),
    /// Items `.0 .. .0 + .1` arrive written another way.
    Reframe(usize, usize, Vec<Vec<u8>>),
    /// The stream reports its end before this item.
    Eof(usize),
    /// After reporting the end it goes on delivering.
    Resume,
    Hint(Hint),
    /// The n-th conversion of a delivered value fails.
    ConvFail(usize),
    /// The n-th formatting of a default fails after so many bytes.
    DispFail(usize, usize),
}

impl Fault {
    pub fn kind(&self) -> &'static str {
        match self {
            Fault::Lose(_) => "argument lost",
            Fault::Dup(_) => "argument duplicated",
            Fault::Move(..) => "argument delayed/reordered",
            Fault::Flip(..) => "bit flipped",
            Fault::Cut(..) => "argument cut short",
            Fault::Merge(_) => "arguments joined",
            Fault::Split(..) => "argument split",
            Fault::Insert(..) => "foreign argument inserted",
            Fault::Replace(..) => "argument overwritten",
            Fault::Repeat(..) => "arguments repeated over and over",
            Fault::Stretch(..) => "argument grown",
            Fault::Reframe(..) => "arguments reframed",
            Fault::Eof(_) => "end of input",
            Fault::Resume => "source resumes after its end",
            Fault::Hint(_) => "wrong size estimate",
            Fault::ConvFail(_) => "conversion fails",
            Fault::DispFail(..) => "default's formatting fails",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Render {
    /// Plain rendering into memory.
    Full,
    /// `fmt::Write` sink which refuses data once so many bytes arrived in total. With `take`, it
    /// stores what still fits of the offending piece.
    FmtFail { at: usize, take: bool },
    /// `io::Write` sink: what each successive call does; `n > 0`: takes at most n bytes,
    /// 0: returns Ok(0), -1: interrupted, -2: fails. After the script it takes everything.
    Io(Vec<i32>),
    /// The conversion's own error fails to render after so many bytes.
    ErrFail(usize),
    Debug,
    /// The debug form into a sink that refuses data as in `FmtFail`.
    DebugFail { at: usize, take: bool },
    /// The debug form while the conversion's own error fails as in `ErrFail`.
    DebugErrFail(usize),
    /// An error made of the message by the caller (`Error::custom`), into a sink as in `FmtFail`.
    Custom { at: usize, take: bool },
    /// Extract the help text (consumes the error).
    IntoHelp,
    /// Render through the error's source.
    Source,
}

impl Render {
    pub fn fault_kind(&self) -> Option<&'static str> {
        match self {
            Render::FmtFail { .. } | Render::DebugFail { .. } | Render::Custom { .. } => Some("sink refuses data"),
            Render::Io(v) if v.iter().any(|&x| x == -2) => Some("sink write error"),
            Render::Io(v) if v.contains(&0) => Some("sink takes nothing"),
            Render::Io(v) if v.contains(&-1) => Some("sink write interrupted"),
            Render::Io(_) => Some("sink short writes"),
            Render::ErrFail(_) | Render::DebugErrFail(_) => Some("error's formatting fails"),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    pub cli: usize,
    /// With argv[0] first.
    pub items: Vec<Vec<u8>>,
    pub faults: Vec<Fault>,
    pub nested: Vec<(usize, Plan)>,
    pub renders: Vec<Render>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Run(Plan),
    /// Take the error (if any) left by another client's step, render and drop it here.
    Take { client: usize, step: usize, renders: Vec<Render> },
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Case {
    pub clients: Vec<Vec<Step>>,
    pub preempts: Vec<(u64, usize)>,
    /// Branches of the code under test are scheduling points too.
    pub fine: bool,
}

impl Case {
    pub fn single(plans: Vec<Plan>) -> Case {
        Case { clients: vec![plans.into_iter().map(Step::Run).collect()], preempts: vec![], fine: false }
    }
    pub fn plans(&self) -> impl Iterator<Item = &Plan> {
        self.clients.iter().flatten().filter_map(|s| match s {
            Step::Run(p) => Some(p),
            _ => None,
        })
    }
}

/// What the source delivers once the faults are applied.
pub struct Delivery {
    pub items: Vec<Vec<u8>>,
    pub end: usize,
    pub resume: bool,
    pub hint: Hint,
    pub conv_fail: Option<usize>,
    pub disp_fail: Option<(usize, usize)>,
    /// Item faults that changed something.
    pub effective: Vec<&'static str>,
}

impl Delivery {
    pub fn delivered(&self) -> &[Vec<u8>] {
        &self.items[..self.end]
    }
}

impl Plan {
    pub fn deliver(&self) -> Delivery {
        let mut d = Delivery {
            items: self.items.clone(),
            end: usize::MAX,
            resume: false,
            hint: Hint::Honest,
            conv_fail: None,
            disp_fail: None,
            effective: vec![],
        };
        for f in &self.faults {
            let before = (d.items.len(), f.kind());
            let v = &mut d.items;
            let n = v.len();
            let mut hit = true;
            match f {
                Fault::Lose(i) if *i < n => {
                    v.remove(*i);
                }
                Fault::Dup(i) if *i < n => {
                    let x = v[*i].clone();
                    v.insert(*i, x);
                }
                Fault::Move(i, j) if *i < n && *j < n && i != j => {
                    let x = v.remove(*i);
                    v.insert(*j, x);
                }
                Fault::Flip(i, b, bit) if *i < n && *b < v[*i].len() => {
                    let x = v[*i][*b] ^ (1 << (bit & 7));
                    // An operating system cannot deliver NUL inside an argument.
                    if x == 0 {
                        hit = false;
                    } else {
                        v[*i][*b] = x;
                    }
                }
                Fault::Cut(i, k) if *i < n && *k < v[*i].len() => v[*i].truncate(*k),
                Fault::Merge(i) if *i + 1 < n => {
                    let x = v.remove(*i + 1);
                    v[*i].extend(x);
                }
                Fault::Split(i, k) if *i < n && *k <= v[*i].len() => {
                    let t = v[*i].split_off(*k);
                    v.insert(*i + 1, t);
                }
                Fault::Insert(i, x) if *i <= n => v.insert(*i, x.clone()),
                Fault::Replace(i, x) if *i < n => v[*i] = x.clone(),
                Fault::Repeat(i, k, t) if i + k <= n => {
                    let unit = v[*i..i + k].to_vec();
                    let x: Vec<Vec<u8>> = (0..*t).flat_map(|_| unit.iter().cloned()).collect();
                    v.splice(*i..i + k, x);
                }
                Fault::Stretch(i, from, k, t) if *i < n && from + k <= v[*i].len() => {
                    let x = v[*i][*from..from + k].repeat(*t);
                    v[*i].splice(*from..from + k, x);
                }
                Fault::Reframe(i, k, x) if i + k <= n => hit = v.splice(*i..i + k, x.clone()).ne(x.iter().cloned()),
                Fault::Eof(k) => {
                    d.end = *k;
                    hit = false;
                }
                Fault::Resume => {
                    d.resume = true;
                    hit = false;
                }
                Fault::Hint(h) => {
                    d.hint = *h;
                    hit = false;
                }
                Fault::ConvFail(k) => {
                    d.conv_fail = Some(*k);
                    hit = false;
                }
                Fault::DispFail(k, at) => {
                    d.disp_fail = Some((*k, *at));
                    hit = false;
                }
                _ => hit = false,
            }
            if hit {
                d.effective.push(before.1);
            }
        }
        d.end = d.end.min(d.items.len());
        d
    }
}

// ---- Text form ----

fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for c in b {
        write!(s, "{c:02x}").unwrap();
    }
    s
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix('x')?;
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}

const HINTS: [(Hint, &str); 6] = [
    (Hint::Honest, "honest"),
    (Hint::None, "none"),
    (Hint::Zero, "zero"),
    (Hint::Low, "low"),
    (Hint::High, "high"),
    (Hint::Huge, "huge"),
];

fn fault_text(f: &Fault) -> String {
    match f {
        Fault::Lose(i) => format!("lose {i}"),
        Fault::Dup(i) => format!("dup {i}"),
        Fault::Move(i, j) => format!("move {i} {j}"),
        Fault::Flip(i, b, k) => format!("flip {i} {b} {k}"),
        Fault::Cut(i, k) => format!("cut {i} {k}"),
        Fault::Merge(i) => format!("merge {i}"),
        Fault::Split(i, k) => format!("split {i} {k}"),
        Fault::Insert(i, x) => format!("insert {i} {}", hex(x)),
        Fault::Replace(i, x) => format!("replace {i} {}", hex(x)),
        Fault::Repeat(i, k, t) => format!("repeat {i} {k} {t}"),
        Fault::Stretch(i, a, k, t) => format!("stretch {i} {a} {k} {t}"),
        Fault::Reframe(i, k, x) => {
            let mut s = format!("reframe {i} {k}");
            for x in x {
                s += " ";
                s += &hex(x);
            }
            s
        }
        Fault::Eof(k) => format!("eof {k}"),
        Fault::Resume => "resume".into(),
        Fault::Hint(h) => format!("hint {}", HINTS.iter().find(|x| x.0 == *h).unwrap().1),
        Fault::ConvFail(k) => format!("convfail {k}"),
        Fault::DispFail(k, at) => format!("dispfail {k} {at}"),
    }
}

fn parse_fault(w: &[&str]) -> Option<Fault> {
    let n = |i: usize| w.get(i)?.parse::<usize>().ok();
    Some(match *w.first()? {
        "lose" => Fault::Lose(n(1)?),
        "dup" => Fault::Dup(n(1)?),
        "move" => Fault::Move(n(1)?, n(2)?),
        "flip" => Fault::Flip(n(1)?, n(2)?, n(3)? as u8),
        "cut" => Fault::Cut(n(1)?, n(2)?),
        "merge" => Fault::Merge(n(1)?),
        "split" => Fault::Split(n(1)?, n(2)?),
        "insert" => Fault::Insert(n(1)?, unhex(w.get(2)?)?),
        "replace" => Fault::Replace(n(1)?, unhex(w.get(2)?)?),
        "repeat" => Fault::Repeat(n(1)?, n(2)?, n(3)?),
        "stretch" => Fault::Stretch(n(1)?, n(2)?, n(3)?, n(4)?),
        "reframe" => Fault::Reframe(n(1)?, n(2)?, w.get(3..)?.iter().map(|x| unhex(x)).collect::<Option<_>>()?),
        "eof" => Fault::Eof(n(1)?),
        "resume" => Fault::Resume,
        "hint" => Fault::Hint(HINTS.iter().find(|x| Some(&x.1) == w.get(1))?.0),
        "convfail" => Fault::ConvFail(n(1)?),
        "dispfail" => Fault::DispFail(n(1)?, n(2)?),
        _ => return None,
    })
}

fn render_text(r: &Render) -> String {
    match r {
        Render::Full => "full".into(),
        Render::FmtFail { at, take } => format!("fmtfail {at} {}", u8::from(*take)),
        Render::Io(v) => {
            format!("io {}", v.iter().map(i32::to_string).collect::<Vec<_>>().join(" "))
        }
        Render::ErrFail(n) => format!("errfail {n}"),
        Render::DebugFail { at, take } => format!("debugfail {at} {}", u8::from(*take)),
        Render::DebugErrFail(n) => format!("debugerrfail {n}"),
        Render::Custom { at, take } => format!("custom {at} {}", u8::from(*take)),
        Render::Debug => "debug".into(),
        Render::IntoHelp => "intohelp".into(),
        Render::Source => "source".into(),
    }
}
fn parse_render(w: &[&str]) -> Option<Render> {
    Some(match *w.first()? {
        "full" => Render::Full,
        "fmtfail" => Render::FmtFail { at: w.get(1)?.parse().ok()?, take: *w.get(2)? == "1" },
        "io" => Render::Io(w[1..].iter().map(|x| x.parse().ok()).collect::<Option<_>>()?),
        "errfail" => Render::ErrFail(w.get(1)?.parse().ok()?),
        "debugfail" => Render::DebugFail { at: w.get(1)?.parse().ok()?, take: *w.get(2)? == "1" },
        "debugerrfail" => Render::DebugErrFail(w.get(1)?.parse().ok()?),
        "custom" => Render::Custom { at: w.get(1)?.parse().ok()?, take: *w.get(2)? == "1" },
        "debug" => Render::Debug,
        "intohelp" => Render::IntoHelp,
        "source" => Render::Source,
        _ => return None,
    })
}

impl Plan {
    fn write(&self, out: &mut String, ind: &str) {
        writeln!(out, "{ind}plan {}", self.cli).unwrap();
        for i in &self.items {
            writeln!(out, "{ind} item {} # {}", hex(i), show_bytes(i)).unwrap();
        }
        for f in &self.faults {
            writeln!(out, "{ind} fault {}", fault_text(f)).unwrap();
        }
        for r in &self.renders {
            writeln!(out, "{ind} render {}", render_text(r)).unwrap();
        }
        for (at, p) in &self.nested {
            writeln!(out, "{ind} nested {at}").unwrap();
            p.write(out, &format!("{ind}  "));
        }
        writeln!(out, "{ind}endplan").unwrap();
    }
}

pub fn cases_text(cases: &[Case]) -> String {
    let mut out = String::new();
    for c in cases {
        out.push_str("case\n");
        for cl in &c.clients {
            out.push_str(" client\n");
            for s in cl {
                match s {
                    Step::Run(p) => p.write(&mut out, "  "),
                    Step::Take { client, step, renders } => {
                        writeln!(out, "  take {client} {step}").unwrap();
                        for r in renders {
                            writeln!(out, "   render {}", render_text(r)).unwrap();
                        }
                        writeln!(out, "  endtake").unwrap();
                    }
                }
            }
            out.push_str(" endclient\n");
        }
        if c.fine {
            out.push_str(" fine\n");
        }
        for (at, c) in &c.preempts {
            writeln!(out, " preempt {at} {c}").unwrap();
        }
        out.push_str("endcase\n");
    }
    out
}

pub fn parse_cases(text: &str) -> Option<Vec<Case>> {
    let lines: Vec<Vec<&str>> = text
        .lines()
        .map(|l| l.split('#').next().unwrap().split_whitespace().collect::<Vec<_>>())
        .filter(|w| !w.is_empty())
        .collect();
    let mut at = 0;
    let mut out = Vec::new();
    while at < lines.len() {
        if lines[at][0] != "case" {
            at += 1;
            continue;
        }
        at += 1;
        let mut c = Case::default();
        while lines.get(at)?[0] != "endcase" {
            let w = &lines[at];
            match w[0] {
                "client" => {
                    at += 1;
                    let mut steps = Vec::new();
                    while lines.get(at)?[0] != "endclient" {
                        let w = &lines[at];
                        match w[0] {
                            "plan" => steps.push(Step::Run(parse_plan(&lines, &mut at)?)),
                            "take" => {
                                let (client, step) = (w[1].parse().ok()?, w[2].parse().ok()?);
                                let mut renders = Vec::new();
                                at += 1;
                                while lines.get(at)?[0] != "endtake" {
                                    renders.push(parse_render(&lines[at][1..])?);
                                    at += 1;
                                }
                                at += 1;
                                steps.push(Step::Take { client, step, renders });
                            }
                            _ => return None,
                        }
                    }
                    at += 1;
                    c.clients.push(steps);
                }
                "fine" => {
                    c.fine = true;
                    at += 1;
                }
                "preempt" => {
                    c.preempts.push((w[1].parse().ok()?, w[2].parse().ok()?));
                    at += 1;
                }
                _ => return None,
            }
        }
        at += 1;
        out.push(c);
    }
    Some(out)
}

fn parse_plan(lines: &[Vec<&str>], at: &mut usize) -> Option<Plan> {
    let mut p = Plan { cli: lines[*at].get(1)?.parse().ok()?, ..Plan::default() };
    *at += 1;
    loop {
        let w = lines.get(*at)?;
        match w[0] {
            "endplan" => {
                *at += 1;
                return Some(p);
            }
            "item" => p.items.push(unhex(w.get(1)?)?),
            "fault" => p.faults.push(parse_fault(&w[1..])?),
            "render" => p.renders.push(parse_render(&w[1..])?),
            "nested" => {
                let n = w.get(1)?.parse().ok()?;
                *at += 1;
                p.nested.push((n, parse_plan(lines, at)?));
                continue;
            }
            _ => return None,
        }
        *at += 1;
    }
}

#[test]
fn text_round_trip() {
    let p = Plan {
        cli: 3,
        items: vec![b"a b".to_vec(), vec![], vec![0xff, b'#']],
        faults: vec![Fault::Move(1, 2), Fault::Insert(0, vec![]), Fault::Hint(Hint::Huge), Fault::Resume],
        nested: vec![(4, Plan { cli: 1, items: vec![b"x".to_vec()], ..Plan::default() })],
        renders: vec![Render::Io(vec![1, -1, 0]), Render::FmtFail { at: 3, take: true }],
    };
    let c = Case {
        clients: vec![
            vec![Step::Run(p)],
            vec![Step::Take { client: 0, step: 0, renders: vec![Render::Full] }],
        ],
        preempts: vec![(3, 1)],
        fine: true,
    };
    let cs = vec![c.clone(), c];
    assert_eq!(parse_cases(&cases_text(&cs)), Some(cs));
}
