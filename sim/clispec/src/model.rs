//! The reference model: what a parse of `cmd` over a delivered argument stream must do.
//!
//! It is written from the documented behaviour, as a plain state machine over owned data, and
//! shares no code and no structure with palc (no frames, no places, no encoded names).

use crate::spec::*;
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// Argument `n` requested and delivered.
    Pull(usize),
    /// An argument requested when none was left.
    PullEnd,
    Conv(Ty, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct SrcExp {
    pub text: String,
    /// The source is a probe's own error value.
    pub probe: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct ErrExp {
    pub text: String,
    pub source: Option<SrcExp>,
    /// Reported after all arguments were processed.
    pub finishing: bool,
    pub kind: ErrKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ErrKind {
    MissingArg0,
    UnknownNamed,
    UnknownSub,
    Extra,
    Duplicate,
    UnexpectedValue,
    MissingValue,
    MissingEq,
    Invalid,
    Exclusive,
    Requires,
    Conflict,
    Missing,
    MissingSub,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok(Obs),
    /// Any one of these. All alternatives are truthful; which one is reported is unspecified.
    Err(Vec<ErrExp>),
    /// Help of the command reached through these variants, under these names.
    Help { path: Vec<usize>, names: Vec<String> },
}

#[derive(Clone, Debug)]
pub struct Expected {
    pub events: Vec<Ev>,
    /// Conversions of textual defaults, in no specified order. All of them happen if the parse
    /// succeeds, any part of them if it fails while finishing, none otherwise.
    pub defaults: Vec<(Ty, Vec<u8>)>,
    pub outcome: Outcome,
    /// Names of the situations met, for coverage accounting.
    pub tags: BTreeSet<&'static str>,
    /// Number of delivered-value conversions.
    pub convs: usize,
}

#[derive(Clone, Debug)]
enum St {
    Unset,
    Flag,
    Bare,
    One(Vec<u8>),
    Many(Vec<Vec<u8>>),
}

struct Group<'a> {
    cmd: &'a Cmd,
    vals: Vec<St>,
}

struct Level<'a> {
    cmd: &'a Cmd,
    groups: Vec<Group<'a>>,
    next_pos: usize,
    /// Chosen variant, if a subcommand was entered.
    chosen: Option<usize>,
}

impl<'a> Level<'a> {
    fn new(cmd: &'a Cmd) -> Self {
        let groups = cmd
            .groups()
            .into_iter()
            .map(|c| Group { cmd: c, vals: vec![St::Unset; c.fields.len()] })
            .collect();
        Level { cmd, groups, next_pos: 0, chosen: None }
    }
}

#[derive(Clone, Copy)]
struct Slot {
    level: usize,
    group: usize,
    field: usize,
}

/// One named argument given, as it arrived.
#[derive(Clone, Debug)]
pub struct Given<'a> {
    pub arg: &'a Arg,
    pub value: Option<Vec<u8>>,
}

/// A self-contained stretch of the stream that gives named arguments only.
#[derive(Clone, Debug)]
pub struct Message<'a> {
    pub from: usize,
    pub to: usize,
    pub given: Vec<Given<'a>>,
}

struct Run<'a, 'i> {
    messages: Vec<Message<'a>>,
    levels: Vec<Level<'a>>,
    args: &'i [Vec<u8>],
    at: usize,
    conv_fail: Option<usize>,
    convs: usize,
    events: Vec<Ev>,
    tags: BTreeSet<&'static str>,
    help: bool,
    names: Vec<String>,
}

enum Stop {
    Err(Vec<ErrExp>),
    Help,
}

fn dbg(b: &[u8]) -> String {
    format!("{:?}", OsStr::from_bytes(b))
}

enum Inline {
    None,
    Eq(Vec<u8>),
    Ambiguous(Vec<u8>),
}

enum NameKind<'x> {
    Long(&'x [u8]),
    Short(char),
    /// Undecodable rest of a bundle.
    Junk(&'x [u8]),
}

/// Does the content itself make a probe reject it?
pub fn naturally_rejected(bytes: &[u8]) -> bool {
    bytes.starts_with(b"bad")
}

/// The kinds of error the OS-string probe's `n`-th conversion fails with.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OsErr {
    Text,
    Empty,
    Lines,
    Raw(i32),
    Parser,
}

pub fn os_err(n: usize) -> OsErr {
    match n % 9 {
        1 => OsErr::Raw(0),
        2 => OsErr::Raw(2),
        3 => OsErr::Lines,
        4 => OsErr::Raw(256),
        5 => OsErr::Parser,
        6 => OsErr::Empty,
        7 => OsErr::Raw(13),
        _ => OsErr::Text,
    }
}

pub fn os_err_text(n: usize) -> String {
    match os_err(n) {
        OsErr::Text | OsErr::Parser => format!("probe error {n}"),
        OsErr::Empty => String::new(),
        OsErr::Lines => format!("first {{0}}\nsecond %s\t{n}\n"),
        OsErr::Raw(c) => std::io::Error::from_raw_os_error(c).to_string(),
    }
}

/// Converts bytes for a type, outside of any parse. The error is the source's text.
pub fn convert_pure(ty: Ty, bytes: &[u8]) -> Result<Vec<u8>, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string());
    Ok(match ty {
        Ty::PStr | Ty::PText | Ty::Str => text?.as_bytes().to_vec(),
        Ty::POs | Ty::PBoth | Ty::PFrom | Ty::OsStr | Ty::Path | Ty::BoxOs => bytes.to_vec(),
        Ty::U8 => text?.parse::<u8>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::I32 => text?.parse::<i32>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::Char => text?.parse::<char>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::BoolV => text?.parse::<bool>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::U64 => text?.parse::<u64>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::F64 => text?.parse::<f64>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::Ip => text?.parse::<std::net::IpAddr>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::NonZero => text?.parse::<std::num::NonZeroU16>().map_err(|e| e.to_string())?.to_string().into_bytes(),
        Ty::EnumA | Ty::EnumB | Ty::EnumC | Ty::EnumD | Ty::EnumP | Ty::Gen(_) => {
            let t = text?;
            match ty.enum_table().unwrap().iter().find(|(n, _)| *n == t) {
                Some((_, v)) => v.as_bytes().to_vec(),
                None => return Err(String::new()),
            }
        }
    })
}

pub fn split_delim(v: &[u8], delim: char) -> Vec<Vec<u8>> {
    let mut buf = [0; 4];
    let d = delim.encode_utf8(&mut buf).as_bytes();
    let mut out = Vec::new();
    let mut cur = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i..].starts_with(d) {
            out.push(std::mem::take(&mut cur));
            i += d.len();
        } else {
            cur.push(v[i]);
            i += 1;
        }
    }
    out.push(cur);
    out
}

impl<'a> Run<'a, '_> {
    fn pull(&mut self) -> Option<Vec<u8>> {
        if let Some(a) = self.args.get(self.at) {
            self.events.push(Ev::Pull(self.at));
            self.at += 1;
            Some(a.clone())
        } else {
            self.events.push(Ev::PullEnd);
            None
        }
    }

    fn err<T>(&self, kind: ErrKind, text: String) -> Result<T, Stop> {
        Err(Stop::Err(vec![ErrExp { text, source: None, finishing: false, kind }]))
    }

    fn arg(&self, s: Slot) -> &'a Arg {
        match &self.levels[s.level].groups[s.group].cmd.fields[s.field] {
            Field::Arg(a) => a,
            _ => unreachable!(),
        }
    }
    fn state(&mut self, s: Slot) -> &mut St {
        &mut self.levels[s.level].groups[s.group].vals[s.field]
    }

    fn lookup(&self, name: &NameKind) -> Option<Slot> {
        let inner = self.levels.len() - 1;
        for level in (0..self.levels.len()).rev() {
            for (group, g) in self.levels[level].groups.iter().enumerate() {
                for (field, f) in g.cmd.fields.iter().enumerate() {
                    let Field::Arg(a) = f else { continue };
                    if level != inner && !a.global {
                        continue;
                    }
                    let hit = match name {
                        NameKind::Long(n) => a.longs().iter().any(|l| l.as_bytes() == *n),
                        NameKind::Short(c) => a.shorts().contains(c),
                        NameKind::Junk(_) => false,
                    };
                    if hit {
                        return Some(Slot { level, group, field });
                    }
                }
            }
        }
        None
    }

    /// Converts one delivered value. `desc`: how the message may call the argument.
    fn convert(&mut self, a: &Arg, bytes: &[u8]) -> Result<Vec<u8>, Stop> {
        let descs: Vec<String> = if a.is_named() {
            vec![a.desc()]
        } else {
            vec!["<unknown argument>".into(), a.desc()]
        };
        let invalid = |src: Option<SrcExp>, ctx: &str| {
            Stop::Err(
                descs
                    .iter()
                    .map(|d| ErrExp {
                        text: format!(
                            "invalid value {} for '{d}'{}{}{ctx}",
                            dbg(bytes),
                            if src.is_some() { ": " } else { "" },
                            src.as_ref().map_or("", |s| &s.text)
                        ),
                        source: src.clone(),
                        finishing: false,
                        kind: ErrKind::Invalid,
                    })
                    .collect(),
            )
        };
        let plain = |t: String| Some(SrcExp { text: t, probe: None });
        if a.ty.is_probe() {
            if a.ty.text_probe()
                && let Err(e) = std::str::from_utf8(bytes)
            {
                self.tags.insert("text-probe-not-utf8");
                return Err(invalid(plain(e.to_string()), ""));
            }
            self.events.push(Ev::Conv(a.ty, bytes.to_vec()));
            if a.ty == Ty::PFrom {
                return Ok(bytes.to_vec());
            }
            let n = self.convs;
            self.convs += 1;
            if self.conv_fail == Some(n) || naturally_rejected(bytes) {
                self.tags.insert(if self.conv_fail == Some(n) {
                    "conversion-failed-by-fault"
                } else {
                    "conversion-failed-by-content"
                });
                let probe = a.ty.own_error().then_some(n);
                let text =
                    if a.ty != Ty::POs { format!("probe error {n}") } else { os_err_text(n) };
                return Err(invalid(Some(SrcExp { text, probe }), ""));
            }
            return Ok(bytes.to_vec());
        }
        match convert_pure(a.ty, bytes) {
            Ok(v) => Ok(v),
            Err(e) => {
                if let Some(t) = a.ty.enum_table() {
                    self.tags.insert("enum-rejected");
                    let ctx = format!(
                        "\n  [possible values: {}]",
                        t.iter().map(|x| x.0).collect::<Vec<_>>().join(", ")
                    );
                    let src = if e.is_empty() { None } else { plain(e) };
                    Err(invalid(src, &ctx))
                } else {
                    self.tags.insert("std-type-rejected");
                    Err(invalid(plain(e), ""))
                }
            }
        }
    }

    /// Hands a (possibly absent) value to an argument.
    fn give(&mut self, s: Slot, value: Option<Vec<u8>>) -> Result<(), Stop> {
        let a = self.arg(s);
        let descs: Vec<String> = if a.is_named() {
            vec![a.desc()]
        } else {
            vec!["<unknown argument>".into(), a.desc()]
        };
        let multi = |kind, f: &dyn Fn(&str) -> String| {
            Err(Stop::Err(
                descs
                    .iter()
                    .map(|d| ErrExp { text: f(d), source: None, finishing: false, kind })
                    .collect(),
            ))
        };
        match a.kind {
            Kind::Bool => {
                if let Some(v) = value {
                    self.tags.insert("value-for-flag");
                    return multi(ErrKind::UnexpectedValue, &|d| {
                        format!("unexpected value {} for '{d}'", dbg(&v))
                    });
                }
                if !matches!(self.state(s), St::Unset) {
                    self.tags.insert("duplicate-flag");
                    return multi(ErrKind::Duplicate, &|d| {
                        format!("the argument '{d}' cannot be used multiple times")
                    });
                }
                *self.state(s) = St::Flag;
            }
            Kind::Value | Kind::Option | Kind::OptOpt => {
                if !matches!(self.state(s), St::Unset) {
                    self.tags.insert("duplicate-single");
                    return multi(ErrKind::Duplicate, &|d| {
                        format!("the argument '{d}' cannot be used multiple times")
                    });
                }
                let st = match value {
                    None => St::Bare,
                    Some(v) => St::One(self.convert(a, &v)?),
                };
                *self.state(s) = st;
            }
            Kind::Vec | Kind::OptVec => {
                let v = value.unwrap();
                let frags = match a.delim {
                    None => vec![v],
                    Some(d) => split_delim(&v, d),
                };
                for f in frags {
                    let x = self.convert(a, &f)?;
                    match self.state(s) {
                        St::Many(m) => m.push(x),
                        st => *st = St::Many(vec![x]),
                    }
                }
            }
        }
        Ok(())
    }

    /// Returns whether the argument took the inline text (so that a bundle ends here).
    fn named(&mut self, name: NameKind, inline: Inline) -> Result<bool, Stop> {
        let Some(s) = self.lookup(&name) else {
            let shown: Vec<u8> = match name {
                NameKind::Long(n) => {
                    if self.help && n == b"help" {
                        return Err(Stop::Help);
                    }
                    [b"--", n].concat()
                }
                NameKind::Short(c) => {
                    if self.help && c == 'h' {
                        return Err(Stop::Help);
                    }
                    format!("-{c}").into_bytes()
                }
                NameKind::Junk(j) => [b"-", j].concat(),
            };
            self.tags.insert("unknown-named");
            return self.err(ErrKind::UnknownNamed, format!("unexpected argument {}", dbg(&shown)));
        };
        if s.level + 1 != self.levels.len() {
            self.tags.insert("global-from-inner-level");
        }
        if s.group > 0 {
            self.tags.insert("flattened-argument");
        }
        let a = self.arg(s);
        let desc = a.desc();
        let missing_eq = |r: &Self| {
            r.err(
                ErrKind::MissingEq,
                format!("equal sign is needed when assigning values for '{desc}'"),
            )
        };
        let mut taken = false;
        let value = match inline {
            Inline::Eq(v) => {
                taken = true;
                Some(v)
            }
            Inline::None => {
                if !a.kind.takes_value() {
                    None
                } else if a.require_eq {
                    self.tags.insert("missing-eq");
                    return missing_eq(self);
                } else {
                    taken = true;
                    self.tags.insert("separate-value");
                    let missing = format!(
                        "a value is required for '{}' but none was supplied",
                        a.desc()
                    );
                    match self.pull() {
                        None => {
                            self.tags.insert("end-inside-option");
                            return self.err(ErrKind::MissingValue, missing);
                        }
                        Some(v) => {
                            let ok = v == b"-"
                                || v.first() != Some(&b'-')
                                || match a.hyphen {
                                    Hyphen::Any => true,
                                    Hyphen::Num => v[1..].iter().all(u8::is_ascii_digit),
                                    Hyphen::No => false,
                                };
                            if !ok {
                                self.tags.insert("hyphen-refused");
                                return self.err(ErrKind::MissingValue, missing);
                            }
                            if v.first() == Some(&b'-') {
                                self.tags.insert("hyphen-accepted");
                            }
                            Some(v)
                        }
                    }
                }
            }
            Inline::Ambiguous(rest) => {
                if a.require_eq {
                    self.tags.insert("missing-eq-in-bundle");
                    return missing_eq(self);
                }
                if a.kind.takes_value() {
                    taken = true;
                    self.tags.insert("attached-value");
                    Some(rest)
                } else {
                    self.tags.insert("bundle");
                    None
                }
            }
        };
        self.messages.last_mut().unwrap().given.push(Given { arg: a, value: value.clone() });
        let value = value.map(|v| if a.ignore_case { v.to_ascii_lowercase() } else { v });
        let given = self.give(s, value);
        if taken || matches!(name, NameKind::Long(_)) {
            self.messages.last_mut().unwrap().to = self.at;
        }
        given?;
        Ok(taken)
    }

    /// Returns whether the rest of the stream was swallowed.
    fn positional(&mut self, after_dashes: bool, arg: Vec<u8>) -> Result<bool, Stop> {
        let level = self.levels.len() - 1;
        let l = &self.levels[level];
        let pos = l.cmd.positionals();
        let slot = pos.get(l.next_pos).copied().filter(|a| after_dashes || !a.last);
        let Some(a) = slot else {
            return if l.cmd.sub().is_some() {
                self.tags.insert("unknown-subcommand");
                self.err(ErrKind::UnknownSub, format!("unrecognized subcommand {}", dbg(&arg)))
            } else {
                self.tags.insert("surplus-positional");
                self.err(ErrKind::Extra, format!("unexpected argument {}", dbg(&arg)))
            };
        };
        let field = l
            .cmd
            .fields
            .iter()
            .position(|f| matches!(f, Field::Arg(x) if std::ptr::eq(x, a)))
            .unwrap();
        let s = Slot { level, group: 0, field };
        if !a.kind.multi() {
            self.levels[level].next_pos += 1;
        }
        let greedy = a.trailing || a.last;
        self.give(s, Some(arg))?;
        if greedy {
            self.tags.insert(if a.last { "last-list" } else { "trailing-list" });
            while let Some(x) = self.pull() {
                self.give(s, Some(x))?;
            }
        }
        Ok(greedy)
    }

    fn main_loop(&mut self) -> Result<(), Stop> {
        while let Some(arg) = self.pull() {
            if arg == b"--" {
                self.tags.insert("double-dash");
                let l = self.levels.last_mut().unwrap();
                let pos = l.cmd.positionals();
                if pos.last().is_some_and(|a| a.last) {
                    l.next_pos = pos.len() - 1;
                }
                while let Some(x) = self.pull() {
                    if self.positional(true, x)? {
                        return Ok(());
                    }
                }
                return Ok(());
            }
            let fresh = Message { from: self.at - 1, to: 0, given: vec![] };
            if let Some(body) = arg.strip_prefix(b"--") {
                self.messages.push(fresh);
                match body.iter().position(|&b| b == b'=') {
                    Some(i) => self
                        .named(NameKind::Long(&body[..i]), Inline::Eq(body[i + 1..].to_vec()))?,
                    None => self.named(NameKind::Long(body), Inline::None)?,
                };
                continue;
            }
            if arg.len() > 1 && arg[0] == b'-' {
                self.messages.push(fresh);
                // Complete only if it was read to its end.
                let done = self.bundle(&arg[1..]);
                if done.is_ok() {
                    self.messages.last_mut().unwrap().to = self.at;
                }
                done?;
                continue;
            }
            let l = self.levels.last().unwrap();
            if let Some(sub) = l.cmd.sub()
                && let Some(i) = sub.variants.iter().position(|v| v.name.as_bytes() == arg)
            {
                self.tags.insert(if self.levels.len() == 1 { "subcommand" } else { "nested-subcommand" });
                let v = &sub.variants[i];
                self.levels.last_mut().unwrap().chosen = Some(i);
                self.names.push(v.name.clone());
                self.levels.push(Level::new(&v.cmd));
                continue;
            }
            if self.positional(false, arg)? {
                return Ok(());
            }
        }
        Ok(())
    }

    fn bundle(&mut self, body: &[u8]) -> Result<(), Stop> {
        // The longest valid UTF-8 prefix is the chain of short names.
        let valid = match std::str::from_utf8(body) {
            Ok(s) => s,
            Err(e) => std::str::from_utf8(&body[..e.valid_up_to()]).unwrap(),
        };
        for (i, c) in valid.char_indices() {
            let rest = &body[i + c.len_utf8()..];
            let inline = match rest.first() {
                None => Inline::None,
                Some(b'=') => Inline::Eq(rest[1..].to_vec()),
                Some(_) => Inline::Ambiguous(rest.to_vec()),
            };
            if self.named(NameKind::Short(c), inline)? {
                return Ok(());
            }
        }
        if valid.len() < body.len() {
            self.tags.insert("undecodable-bundle");
            self.named(NameKind::Junk(&body[valid.len()..]), Inline::None)?;
            unreachable!();
        }
        Ok(())
    }

    fn finish(&mut self) -> (Vec<ErrExp>, Vec<(Ty, Vec<u8>)>) {
        let mut errs = Vec::new();
        let mut defaults = Vec::new();
        let mut add = |kind, text: String| {
            errs.push(ErrExp { text, source: None, finishing: true, kind });
        };
        for l in &self.levels {
            for (gi, g) in l.groups.iter().enumerate() {
                let set_of = |ident: &str| {
                    g.cmd
                        .fields
                        .iter()
                        .zip(&g.vals)
                        .find_map(|(f, v)| match f {
                            Field::Arg(a) if a.ident == ident => {
                                Some((a, !matches!(v, St::Unset)))
                            }
                            _ => None,
                        })
                        .unwrap()
                };
                let set_count = g.vals.iter().filter(|v| !matches!(v, St::Unset)).count()
                    + usize::from(gi == 0 && l.chosen.is_some());
                for (f, v) in g.cmd.fields.iter().zip(&g.vals) {
                    let Field::Arg(a) = f else { continue };
                    let d = a.desc();
                    if !matches!(v, St::Unset) {
                        if a.exclusive && set_count > 1 {
                            add(ErrKind::Exclusive, format!("the argument '{d}' cannot be used with one or more of the other specified arguments"));
                        }
                        for r in &a.requires {
                            let (dep, set) = set_of(r);
                            if !set {
                                add(ErrKind::Requires, format!("the argument '{}' is required because some dependency arguments are provided", dep.desc()));
                            }
                        }
                        for c in &a.conflicts {
                            if set_of(c).1 {
                                add(ErrKind::Conflict, format!("the argument '{d}' cannot be used with some other arguments"));
                            }
                        }
                    } else {
                        if a.must_be_given() {
                            add(ErrKind::Missing, format!("the argument '{d}' is required but not provided"));
                        }
                        if let Dflt::Text(t) = &a.default
                            && a.kind != Kind::Bool
                        {
                            match a.delim {
                                Some(d) => {
                                    for f in split_delim(t.as_bytes(), d) {
                                        defaults.push((a.ty, f));
                                    }
                                }
                                None => defaults.push((a.ty, t.clone().into_bytes())),
                            }
                        }
                    }
                }
            }
            if let Some(s) = l.cmd.sub()
                && l.chosen.is_none()
                && !s.optional
            {
                add(ErrKind::MissingSub, "the subcommand is required but not provided".into());
            }
        }
        (errs, defaults)
    }

    fn build(&self, level: usize) -> Obs {
        let mut gi = 0;
        self.build_group(level, &mut gi)
    }

    fn build_group(&self, level: usize, gi: &mut usize) -> Obs {
        let l = &self.levels[level];
        let g = &l.groups[*gi];
        *gi += 1;
        let mut out = Vec::new();
        // Groups are numbered in preorder, children in definition order.
        for (f, v) in g.cmd.fields.iter().zip(&g.vals) {
            match f {
                Field::Arg(a) => out.push((a.ident.clone(), final_value(a, v))),
                Field::Flatten(i, _) => out.push((i.clone(), self.build_group(level, gi))),
                Field::Sub(s) => {
                    let o = match l.chosen {
                        None => Obs::Absent,
                        Some(i) => Obs::Variant(
                            s.variants[i].ident.clone(),
                            Box::new(self.build(level + 1)),
                        ),
                    };
                    out.push((s.ident.clone(), o));
                }
            }
        }
        Obs::Struct(out)
    }
}

fn final_value(a: &Arg, v: &St) -> Obs {
    let given = match v {
        St::Unset => None,
        v => Some(v.clone()),
    };
    let given = given.or_else(|| match &a.default {
        Dflt::No => None,
        Dflt::Typed { obs, .. } => Some(if a.kind == Kind::Bool {
            if obs == b"true" { St::Flag } else { St::Unset }
        } else {
            St::One(obs.clone())
        }),
        Dflt::Text(t) if a.kind == Kind::Bool => Some(if t == "true" { St::Flag } else { St::Unset }),
        Dflt::Text(t) => {
            let conv = |b: &[u8]| convert_pure(a.ty, b).expect("defaults are valid");
            Some(if a.kind.multi() {
                St::Many(match a.delim {
                    Some(d) => split_delim(t.as_bytes(), d).iter().map(|f| conv(f)).collect(),
                    None => vec![conv(t.as_bytes())],
                })
            } else {
                St::One(conv(t.as_bytes()))
            })
        }
    });
    match (a.kind, given) {
        (Kind::Bool, Some(St::Flag)) => Obs::Flag(true),
        (Kind::Bool, _) => Obs::Flag(false),
        (_, None | Some(St::Unset)) => {
            if a.kind == Kind::Vec { Obs::Many(vec![]) } else { Obs::Absent }
        }
        (_, Some(St::Bare)) => Obs::Bare,
        (_, Some(St::One(v))) => Obs::One(v),
        (_, Some(St::Many(v))) => Obs::Many(v),
        (_, Some(St::Flag)) => unreachable!(),
    }
}

/// The program name a parse derives from argv[0].
pub fn program_name(argv0: &[u8]) -> String {
    let p = std::path::Path::new(OsStr::from_bytes(argv0));
    p.file_name().unwrap_or(p.as_os_str()).to_string_lossy().into_owned()
}

pub fn run(root: &Cmd, args: &[Vec<u8>], conv_fail: Option<usize>, help: bool) -> Expected {
    run_traced(root, args, conv_fail, help).0
}

/// Also what arrived in which part of the stream, as far as it was read completely.
pub fn run_traced<'a>(
    root: &'a Cmd,
    args: &[Vec<u8>],
    conv_fail: Option<usize>,
    help: bool,
) -> (Expected, Vec<Message<'a>>) {
    let mut r = Run {
        messages: vec![],
        levels: vec![Level::new(root)],
        args,
        at: 0,
        conv_fail,
        convs: 0,
        events: Vec::new(),
        tags: BTreeSet::new(),
        help,
        names: Vec::new(),
    };
    let res = match r.pull() {
        None => {
            r.tags.insert("end-before-argv0");
            r.err(ErrKind::MissingArg0, "missing executable argument (argv[0])".into())
        }
        Some(_) => r.main_loop(),
    };
    let mut defaults = Vec::new();
    let outcome = match res {
        Err(Stop::Err(e)) => Outcome::Err(e),
        Err(Stop::Help) => {
            r.tags.insert("help");
            let path = r.levels.iter().filter_map(|l| l.chosen).collect();
            Outcome::Help { path, names: std::mem::take(&mut r.names) }
        }
        Ok(()) => {
            let (errs, d) = r.finish();
            defaults = d;
            defaults.retain(|(t, _)| t.is_probe());
            if errs.is_empty() {
                r.tags.insert("accepted");
                Outcome::Ok(r.build(0))
            } else {
                r.tags.insert("finishing-error");
                Outcome::Err(errs)
            }
        }
    };
    r.messages.retain(|m| m.to > m.from);
    (Expected { events: r.events, defaults, outcome, tags: r.tags, convs: r.convs }, r.messages)
}
