//! Random (seeded) and hand-made CLI definitions. Every definition produced here is one that
//! palc accepts.

use crate::rng::Rng;
use crate::spec::*;
use std::collections::BTreeSet;

const WORDS: &[&str] = &[
    "foo", "foo_bar", "foobar", "fo", "bar", "baz", "qux", "verbose", "color", "col", "level",
    "lev", "input", "in_put", "output", "out", "file", "files", "num", "number", "key", "keys",
    "name", "path", "config", "conf", "debug", "depth", "all", "alpha", "beta", "gamma", "jobs",
    "job", "rate", "x_1", "x_11", "y_2", "mode_a", "mode", "retry", "retries", "since", "until",
    // Taken by the language, or unusual as a field's name.
    "type", "match", "async", "in", "mod", "move", "use", "größe", "naïve_x", "camelCase", "_lead", "trail_", "a__b", "v2Beta",
];
const EXTRA_LONGS: &[&str] =
    &["é", "éa", "naïve", "a.b", "FOO", "Foo", "x y", "日本", "v2", "no-color", "with:colon", "a--b",
    "a-long-name-that-goes-on-and-on-until-no-terminal-of-this-world-shows-it-in-a-single-line-of-its-own"];
const SHORTS: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'f', 'g', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't',
    'u', 'v', 'w', 'x', 'y', 'z', 'A', 'B', 'C', 'H', 'V', 'X', '0', '1', '9', '?', '@', 'é', 'ß',
    '日', '😀', '.', ',',
];
const VARIANTS: &[(&str, &str)] = &[
    ("HTTPGet", "http-get"),
    ("V2Api", "v2-api"),
    ("X86_64", "x86-64"),
    ("Élan", "élan"),
    ("type", "type"),
    ("None", "none"),
    ("IPv6", "i-pv6"),
    ("Help", "help"),
    ("Add", "add"),
    ("AddAll", "add-all"),
    ("Ad", "ad"),
    ("Adder", "adder"),
    ("Run", "run"),
    ("RunOnce", "run-once"),
    ("Rm", "rm"),
    ("List", "list"),
    ("ListAll", "list-all"),
    ("Config", "config"),
    ("Get", "get"),
    ("Set", "set"),
    ("Show", "show"),
    ("Foo", "foo"),
    ("FooBar", "foo-bar"),
    ("Bar", "bar"),
    ("Init", "init"),
    ("Exec", "exec"),
    ("Z", "z"),
    ("Zz", "zz"),
];

const ODD_DOCS: &[&str] = &[
    "Uses {braces}, {0} and {}.",
    "100% \"quoted\" back\\slash \\n.",
    "    Indented.\n        More indented.\n\n\n\nAfter many blank lines.   ",
    "\nStarts with a blank line.\n\nNext.",
    "é 日本 😀 ß.",
    "# Heading\n\n- item [link](x)\n- `code`\n\n```\nblock\n```",
    "x",
    "[default: none] of these --flags <ARE> [REAL]...",
    "\n\n",
];

struct Gen<'r> {
    r: &'r mut Rng,
    next_ty: usize,
    next_default: usize,
    probes: u32,
    enums: Vec<u32>,
    /// Finished `Args` types, to be used again.
    groups: Vec<Cmd>,
    subs: Vec<Cmd>,
}

#[derive(Default)]
struct Names {
    longs: BTreeSet<String>,
    shorts: BTreeSet<char>,
}

impl Names {
    fn free(&self, g: &Cmd) -> bool {
        g.groups().iter().flat_map(|c| c.args()).all(|a| {
            a.longs().iter().all(|l| !self.longs.contains(l)) && a.shorts().iter().all(|c| !self.shorts.contains(c))
        })
    }
    fn take(&mut self, g: &Cmd) {
        for a in g.groups().iter().flat_map(|c| c.args()) {
            self.longs.extend(a.longs());
            self.shorts.extend(a.shorts());
        }
    }
}

fn blank(ident: &str) -> Arg {
    Arg {
        ident: ident.into(),
        kind: Kind::Bool,
        ty: Ty::PStr,
        long: Name::No,
        short: Name::No,
        alias: vec![],
        short_alias: vec![],
        require_eq: false,
        global: false,
        hyphen: Hyphen::No,
        ignore_case: false,
        delim: None,
        default: Dflt::No,
        required: false,
        exclusive: false,
        requires: vec![],
        conflicts: vec![],
        hide: false,
        value_name: None,
        doc: None,
        trailing: false,
        last: false,
    }
}

impl Gen<'_> {
    fn ty(&mut self) -> Ty {
        let p = self.probes;
        if self.r.pct(p) {
            *self.r.pick(&[Ty::PStr, Ty::PStr, Ty::POs, Ty::PBoth, Ty::PBoth, Ty::PFrom, Ty::PText])
        } else if self.r.pct(20) {
            if self.enums.is_empty() || self.enums.len() < 2 && self.r.pct(40) {
                self.enums.push(self.r.below(1 << 30) as u32);
            }
            Ty::Gen(*self.r.pick(&self.enums))
        } else {
            *self.r.pick(&[
                Ty::Str, Ty::OsStr, Ty::Path, Ty::U8, Ty::I32, Ty::Char, Ty::BoolV, Ty::EnumA,
                Ty::EnumB, Ty::EnumC, Ty::EnumD, Ty::EnumP, Ty::U64, Ty::F64, Ty::BoxOs, Ty::Ip, Ty::NonZero,
            ])
        }
    }

    fn doc(&mut self, what: &str) -> Option<String> {
        match self.r.below(8) {
            0 => None,
            2 => Some((*self.r.pick(ODD_DOCS)).to_string()),
            3 if self.r.pct(40) => {
                let words = 4 + self.r.below(90);
                let mut t = format!("Of {what}");
                for i in 0..words {
                    let sep = if self.r.pct(2) { "\n\n" } else if self.r.pct(6) { "\n" } else { " " };
                    t.push_str(&format!("{sep}word{i}"));
                }
                Some(t)
            }
            1 => Some(format!("{what} first line\ncontinued here.\n\nSecond paragraph of {what}.")),
            _ => Some(format!("Help for {what}.")),
        }
    }

    /// Text that converts successfully to `ty`.
    pub fn default_text(&mut self, ty: Ty) -> String {
        self.next_default += 1;
        let n = self.next_default;
        match ty {
            Ty::U8 => (n % 250).to_string(),
            Ty::I32 => format!("-{n}"),
            Ty::Char => "Ω".into(),
            Ty::BoolV => "true".into(),
            Ty::EnumA => "no-op".into(),
            Ty::EnumB => "FAST_MODE".into(),
            Ty::EnumC => "a b".into(),
            Ty::EnumD => "fooBar".into(),
            Ty::U64 => format!("1844674407370955{}", n % 1000),
            Ty::F64 => format!("{n}.5"),
            Ty::Ip => format!("10.0.0.{}", n % 250),
            Ty::NonZero => (n % 1000 + 1).to_string(),
            Ty::EnumP => "x-large".into(),
            Ty::Gen(id) => self.r.pick(crate::enums::table(id)).0.into(),
            _ => match self.r.below(16) {
                0 => format!("a{n}\n\n\n  b"),
                1 => format!(" sp {n}  "),
                2 => format!("-{n}"),
                3 => format!("--o{n}=x"),
                4 => format!("{{{n}}} \"q\" \\ '"),
                5 => format!("日本é{n}\t\r\n"),
                6 => format!("[default: {n}]"),
                7 => format!("x{n},y"),
                _ => format!("dflt{n}x"),
            },
        }
    }

    fn typed_default(&mut self, ty: Ty) -> Option<(Option<String>, Vec<u8>)> {
        let t = self.default_text(ty);
        let s = |e: String, o: &str| Some((Some(e), o.as_bytes().to_vec()));
        match ty {
            Ty::PStr | Ty::POs | Ty::PBoth | Ty::PFrom | Ty::PText => {
                s(format!("{}::dflt({t:?})", ty.rust()), &t)
            }
            Ty::Str => {
                if self.r.pct(30) {
                    Some((None, vec![]))
                } else {
                    s(format!("String::from({t:?})"), &t)
                }
            }
            Ty::U8 => {
                if self.r.pct(30) {
                    Some((None, b"0".to_vec()))
                } else {
                    s(t.clone(), &t)
                }
            }
            Ty::I32 | Ty::F64 => s(t.clone(), &t),
            Ty::U64 => {
                let suffix = if self.r.pct(50) { "" } else { "u64" };
                s(format!("{t}{suffix}"), &t)
            }
            Ty::Char => s(format!("'{t}'"), &t),
            Ty::BoolV => s(t.clone(), &t),
            Ty::EnumA => s("simrt::vals::EnumA::NoOp".into(), "NoOp"),
            Ty::EnumB => s("simrt::vals::EnumB::FastMode".into(), "FastMode"),
            Ty::EnumC => s("simrt::vals::EnumC::AB".into(), "AB"),
            Ty::EnumD => s("simrt::vals::EnumD::FooBarBaz".into(), "FooBarBaz"),
            Ty::EnumP => s("simrt::vals::EnumP::XLarge".into(), "XLarge"),
            Ty::Gen(id) => {
                let ident = crate::enums::table(id).iter().find(|x| x.0 == t).unwrap().1;
                s(format!("{}::{}", ty.rust(), crate::enums::code_ident(ident)), ident)
            }
            Ty::Ip => s(format!("std::net::IpAddr::V4(std::net::Ipv4Addr::new(10, 0, 0, {}))", self.next_default % 250), &t),
            Ty::NonZero => s(format!("std::num::NonZeroU16::new({t}).unwrap()"), &t),
            Ty::OsStr | Ty::Path | Ty::BoxOs => None,
        }
    }

    fn fix_bool(a: &mut Arg) {
        // `bool` itself is a flag, so boolean values only exist inside another type.
        if a.kind == Kind::Value && a.ty == Ty::BoolV {
            a.ty = Ty::PStr;
        }
    }

    fn defaults(&mut self, a: &mut Arg) {
        match a.kind {
            Kind::Bool => {
                if a.is_named() && self.r.pct(4) {
                    let v = self.r.pct(50).to_string();
                    a.default = Dflt::Typed { obs: v.clone().into_bytes(), expr: Some(v) };
                } else if self.r.pct(4) {
                    a.default = Dflt::Text(self.r.pct(60).to_string());
                }
            }
            Kind::Value | Kind::Option => {
                let (p_typed, p_text) = if a.kind == Kind::Value { (25, 20) } else { (8, 10) };
                if a.is_named() && self.r.pct(p_typed) {
                    if let Some((expr, obs)) = self.typed_default(a.ty) {
                        a.default = Dflt::Typed { expr, obs };
                        return;
                    }
                }
                if self.r.pct(p_text) {
                    a.default = Dflt::Text(self.default_text(a.ty));
                }
            }
            Kind::OptOpt => {
                if self.r.pct(10) {
                    a.default = Dflt::Text(self.default_text(a.ty));
                }
            }
            Kind::Vec | Kind::OptVec => {
                if self.r.pct(15) {
                    let t = self.default_text(a.ty);
                    a.default = Dflt::Text(match a.delim {
                        Some(d) if self.r.pct(60) => {
                            let t2 = self.default_text(a.ty);
                            format!("{t}{d}{t2}")
                        }
                        _ => t,
                    });
                }
            }
        }
        if let (Dflt::Text(t), Some(d)) = (&a.default, a.delim)
            && crate::model::split_delim(t.as_bytes(), d).iter().any(|f| crate::model::convert_pure(a.ty, f).is_err())
        {
            a.default = Dflt::No;
        }
        if a.default == Dflt::No && a.kind != Kind::Value && self.r.pct(10) {
            a.required = true;
        }
    }

    fn named(&mut self, ident: &str, names: &mut Names, may_global: bool) -> Option<Arg> {
        let mut a = blank(ident);
        a.kind = match self.r.weighted(&[22, 22, 20, 10, 16, 8]) {
            0 => Kind::Bool,
            1 => Kind::Value,
            2 => Kind::Option,
            3 => Kind::OptOpt,
            4 => Kind::Vec,
            _ => Kind::OptVec,
        };
        a.ty = self.ty();
        Self::fix_bool(&mut a);
        let style = self.r.weighted(&[45, 35, 20]);
        if style != 2 {
            let l = if self.r.pct(25) {
                Name::Explicit((*self.r.pick(EXTRA_LONGS)).to_string())
            } else if self.r.pct(15) {
                Name::Explicit(self.r.pick(WORDS).trim_start_matches('_').replace('_', "-"))
            } else {
                Name::Inherit
            };
            a.long = l;
            if names.longs.contains(&a.long_name().unwrap()) {
                a.long = Name::No;
            }
        }
        if style != 1 || a.long == Name::No {
            a.short = if self.r.pct(50) {
                Name::Inherit
            } else {
                Name::Explicit(*self.r.pick(SHORTS))
            };
            if names.shorts.contains(&a.short_name().unwrap()) {
                let free: Vec<char> =
                    SHORTS.iter().copied().filter(|c| !names.shorts.contains(c)).collect();
                a.short = if free.is_empty() {
                    Name::No
                } else {
                    Name::Explicit(*self.r.pick(&free))
                };
            }
        }
        if !a.is_named() {
            return None;
        }
        names.longs.extend(a.long_name());
        names.shorts.extend(a.short_name());
        for _ in 0..2 {
            if self.r.pct(15) {
                let l = if self.r.pct(50) {
                    (*self.r.pick(EXTRA_LONGS)).to_string()
                } else {
                    format!("{}-alt", self.r.pick(WORDS).trim_start_matches('_').replace('_', "-"))
                };
                if names.longs.insert(l.clone()) {
                    a.alias.push(l);
                }
            }
            if self.r.pct(10) {
                let c = *self.r.pick(SHORTS);
                if names.shorts.insert(c) {
                    a.short_alias.push(c);
                }
            }
        }
        // Taking over a way to ask for help.
        if self.r.pct(4) {
            match self.r.below(4) {
                0 | 1 if names.shorts.insert('h') => {
                    if a.short == Name::No { a.short = Name::Explicit('h') } else { a.short_alias.push('h') }
                    a.global = may_global && self.r.pct(60);
                }
                2 if names.longs.insert("help".into()) => {
                    if a.long == Name::No { a.long = Name::Explicit("help".into()) } else { a.alias.push("help".into()) }
                    a.global = may_global && self.r.pct(60);
                }
                _ => {}
            }
        }
        if may_global && self.r.pct(25) {
            a.global = true;
        }
        if a.kind == Kind::OptOpt {
            a.require_eq = true;
        } else if a.kind.takes_value() {
            if self.r.pct(12) {
                a.require_eq = true;
            } else if self.r.pct(15) {
                a.hyphen = Hyphen::Any;
            } else if self.r.pct(12) {
                a.hyphen = Hyphen::Num;
            }
        }
        if a.kind != Kind::Bool && a.ty.allows_ignore_case() && self.r.pct(50) {
            a.ignore_case = true;
        }
        if a.kind.multi() && self.r.pct(35) {
            a.delim = Some(*self.r.pick(&[',', ',', ':', 'é', '-']));
        }
        self.defaults(&mut a);
        // A hidden argument that must be given makes no sense, but is accepted.
        a.hide = self.r.pct(8);
        if self.r.pct(12) && a.kind != Kind::Bool {
            a.value_name = Some((*self.r.pick(&["N", "FILE-NAME", "k=v", "Größe", "A VALUE OF WHICH THE NAME TAKES MORE ROOM THAN ANY LIST OF ARGUMENTS WOULD LEAVE FOR IT"])).to_string());
        }
        a.doc = self.doc(ident);
        Some(a)
    }

    fn positional(&mut self, ident: &str, multi: bool) -> Arg {
        let mut a = blank(ident);
        a.ty = self.ty();
        a.kind = if multi {
            if self.r.pct(70) { Kind::Vec } else { Kind::OptVec }
        } else if self.r.pct(50) {
            Kind::Value
        } else {
            Kind::Option
        };
        Self::fix_bool(&mut a);
        if multi && self.r.pct(15) {
            a.delim = Some(',');
        }
        self.defaults(&mut a);
        if self.r.pct(12) {
            a.value_name = Some((*self.r.pick(&["N", "FILE-NAME", "k=v"])).to_string());
        }
        a.doc = self.doc(ident);
        a
    }

    fn ident(&mut self, used: &mut BTreeSet<String>) -> String {
        loop {
            let mut w = (*self.r.pick(WORDS)).to_string();
            if used.len() > WORDS.len() / 2 {
                w = format!("{w}_n{}", self.r.below(1000));
            }
            if used.insert(w.clone()) {
                return w;
            }
        }
    }

    fn ty_name(&mut self, base: &str) -> String {
        self.next_ty += 1;
        format!("{base}{}", self.next_ty)
    }

    /// A command level. `names`: names already taken at this level (by other groups of it).
    fn cmd(&mut self, depth: usize, role: Role, names: &mut Names) -> Cmd {
        let base = match role {
            Role::Root => "Cli",
            Role::Group => "Grp",
            Role::Sub => "Cmd",
        };
        let mut c = Cmd { ty_name: self.ty_name(base), ..Default::default() };
        c.doc = self.doc(base);
        if self.r.pct(40) {
            c.after_help = Some(match self.r.below(4) {
                0 => "{braces}\n\n  \"Indented\" 100%\n".into(),
                _ => format!("After help of {}.\n", c.ty_name),
            });
            c.after_runtime = self.r.pct(30);
        }
        if self.r.pct(20) {
            c.long_about = Some(match self.r.below(5) {
                0 => About::Inherit,
                1 => About::Explicit("One {line}".into()),
                2 => About::Runtime(format!("Told about {}.", c.ty_name)),
                3 => About::Runtime(format!("Told about {}.\n\nAnd \u{e9}ven more {{}} of it.", c.ty_name)),
                _ => About::Explicit(format!("Really about {}.\n\nAnd 100% \"more\" {{}}.\n  Indented.", c.ty_name)),
            });
        }
        let mut used = BTreeSet::new();
        let n_named = match role {
            Role::Root => if self.r.pct(4) { 0 } else { self.r.range(1, 7) },
            Role::Group => self.r.weighted(&[18, 28, 24, 18, 12]),
            Role::Sub => self.r.range(0, 4),
        };
        for _ in 0..n_named {
            let id = self.ident(&mut used);
            if let Some(a) = self.named(&id, names, true) {
                c.fields.push(Field::Arg(a));
            }
        }
        // Positionals.
        if role != Role::Group {
            let n = self.r.weighted(&[40, 30, 20, 10]);
            for _ in 0..n {
                let id = self.ident(&mut used);
                let a = self.positional(&id, false);
                c.fields.push(Field::Arg(a));
            }
            if self.r.pct(35) {
                let id = self.ident(&mut used);
                let mut a = self.positional(&id, true);
                a.trailing = self.r.pct(35);
                c.fields.push(Field::Arg(a));
            }
            if self.r.pct(30) {
                let id = self.ident(&mut used);
                let mut a = self.positional(&id, true);
                a.last = true;
                c.fields.push(Field::Arg(a));
            }
        }
        // Groups.
        if depth < 3 {
            let n = match role {
                Role::Root => self.r.weighted(&[50, 30, 20]),
                Role::Sub => self.r.weighted(&[70, 25, 5]),
                Role::Group if n_named == 0 => self.r.weighted(&[30, 60, 10]),
                Role::Group => self.r.weighted(&[70, 26, 4]),
            };
            for _ in 0..n {
                let id = self.ident(&mut used);
                let again: Vec<&Cmd> = self.groups.iter().filter(|g| names.free(g)).collect();
                let g = if !again.is_empty() && self.r.pct(60) {
                    let g = (*self.r.pick(&again)).clone();
                    names.take(&g);
                    g
                } else {
                    let g = self.cmd(depth + 1, Role::Group, names);
                    self.groups.push(g.clone());
                    g
                };
                c.fields.push(Field::Flatten(id, g));
            }
        }
        // Subcommand.
        if role != Role::Group && depth < 3 {
            let p = if role == Role::Root { 60 } else { 25 };
            if self.r.pct(p) {
                let id = self.ident(&mut used);
                let s = self.sub(id, depth);
                c.fields.push(Field::Sub(s));
            }
        }
        // Order of definition is free, except that nothing positional may follow the
        // variable-length positional.
        let var_first = |c: &Cmd| {
            let mut seen = false;
            for f in &c.fields {
                if let Field::Arg(a) = f
                    && !a.is_named()
                {
                    if seen && !a.last && !a.kind.multi() {
                        return true;
                    }
                    seen |= a.kind.multi() && !a.last;
                }
            }
            false
        };
        let keep = c.fields.clone();
        self.r.shuffle(&mut c.fields);
        if var_first(&c) {
            c.fields = keep;
        }
        self.constraints(&mut c);
        c
    }

    fn constraints(&mut self, c: &mut Cmd) {
        let idents: Vec<String> = c.args().map(|a| a.ident.clone()).collect();
        let has_flatten = c.flattens().next().is_some();
        if idents.len() < 2 {
            return;
        }
        let on = self.r.pct(55);
        for f in &mut c.fields {
            let Field::Arg(a) = f else { continue };
            let others: Vec<&String> = idents.iter().filter(|i| **i != a.ident).collect();
            if on && self.r.pct(20) {
                for _ in 0..*self.r.pick(&[1, 1, 1, 2, 2, 3, 4]) {
                    a.requires.push((*self.r.pick(&others)).clone());
                }
            }
            if on && self.r.pct(20) {
                for _ in 0..*self.r.pick(&[1, 1, 1, 2, 2, 3, 4]) {
                    a.conflicts.push((*self.r.pick(&others)).clone());
                }
            }
            a.requires.dedup();
            a.conflicts.dedup();
            if !has_flatten && self.r.pct(5) {
                a.exclusive = true;
            }
        }
    }

    fn sub(&mut self, ident: String, depth: usize) -> Sub {
        let n = self.r.range(1, 5);
        let mut picks: Vec<(&str, &str)> = VARIANTS.to_vec();
        self.r.shuffle(&mut picks);
        let enum_name = self.ty_name("Sub");
        let variants = picks[..n]
            .iter()
            .map(|(id, name)| {
                let kind = match self.r.below(5) {
                    0 => VKind::Unit,
                    1 | 2 => VKind::Newtype,
                    _ => VKind::Struct,
                };
                let cmd = if kind == VKind::Unit {
                    Cmd { doc: self.doc(id), ..Default::default() }
                } else if kind == VKind::Newtype && !self.groups.is_empty() && self.r.pct(15) {
                    self.r.pick(&self.groups).clone()
                } else if kind == VKind::Newtype && !self.subs.is_empty() && self.r.pct(10) {
                    self.r.pick(&self.subs).clone()
                } else {
                    let c = self.cmd(depth + 1, Role::Sub, &mut Names::default());
                    if kind == VKind::Newtype {
                        self.subs.push(c.clone());
                    }
                    c
                };
                Variant { ident: (*id).into(), name: (*name).into(), kind, cmd }
            })
            .collect();
        Sub { ident, optional: self.r.pct(50), enum_name, variants }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Role {
    Root,
    Group,
    Sub,
}

fn random_cli(seed: u64, i: usize) -> Cmd {
    let mut r = Rng::from_parts(&[seed, i as u64, 0xC11]);
    let probes = *r.pick(&[30, 60, 60, 90]);
    let mut g = Gen { r: &mut r, next_ty: 0, next_default: 0, probes, enums: vec![], groups: vec![], subs: vec![] };
    g.cmd(0, Role::Root, &mut Names::default())
}

// ---- Hand-made definitions: shapes random generation reaches rarely. ----

fn val(ident: &str, kind: Kind, ty: Ty) -> Arg {
    Arg { kind, ty, ..blank(ident) }
}
fn long(mut a: Arg) -> Arg {
    a.long = Name::Inherit;
    a
}
fn short(mut a: Arg, c: char) -> Arg {
    a.short = Name::Explicit(c);
    a
}
fn cmd(name: &str, fields: Vec<Field>) -> Cmd {
    Cmd { ty_name: name.into(), doc: Some(format!("About {name}.")), fields, ..Cmd::default() }
}
fn v(ident: &str, name: &str, kind: VKind, c: Cmd) -> Variant {
    Variant { ident: ident.into(), name: name.into(), kind, cmd: c }
}
fn sub(ident: &str, optional: bool, enum_name: &str, variants: Vec<Variant>) -> Field {
    Field::Sub(Sub { ident: ident.into(), optional, enum_name: enum_name.into(), variants })
}

/// The largest definition the macros accept: many names, high field indices.
fn huge() -> Cmd {
    let mut fields = Vec::new();
    for i in 0..120 {
        fields.push(Field::Arg(short_maybe(long(val(&format!("flag_{i}"), Kind::Bool, Ty::PStr)), i)));
        let mut a = long(val(&format!("opt_{i}"), if i % 3 == 0 { Kind::Vec } else { Kind::Option }, if i % 2 == 0 { Ty::PStr } else { Ty::POs }));
        a.hide = i % 5 == 0;
        if i == 7 {
            a.requires.push("opt_119".into());
        }
        if i == 118 {
            a.conflicts.push("flag_119".into());
        }
        fields.push(Field::Arg(a));
    }
    for i in 0..12 {
        fields.push(Field::Arg(val(&format!("pos_{i}"), Kind::Option, Ty::PStr)));
    }
    fields.push(Field::Arg(val("rest", Kind::Vec, Ty::POs)));
    let mut l = val("tail", Kind::Vec, Ty::POs);
    l.last = true;
    fields.push(Field::Arg(l));
    assert_eq!(fields.len(), 254);
    cmd("Huge", fields)
}
fn short_maybe(a: Arg, i: usize) -> Arg {
    match char::from_u32('a' as u32 + i as u32) {
        Some(c) if c.is_ascii_lowercase() && c != 'h' => short(a, c),
        _ => a,
    }
}

/// Only positionals: more than fit in small counters.
fn many_positionals() -> Cmd {
    let mut f: Vec<Field> =
        (0..250).map(|i| Field::Arg(val(&format!("p_{i}"), Kind::Option, Ty::POs))).collect();
    f.push(Field::Arg(short(val("quiet", Kind::Bool, Ty::PStr), 'q')));
    cmd("ManyPos", f)
}

fn many_subcommands() -> Cmd {
    let mut vs = Vec::new();
    for i in 0..40 {
        let g = cmd(&format!("Leaf{i}"), vec![
            Field::Arg(short(val("go", Kind::Bool, Ty::PStr), 'g')),
            Field::Arg(val("arg", Kind::Option, Ty::PStr)),
        ]);
        vs.push(v(&format!("Task{i}"), &format!("task{i}"), if i % 2 == 0 { VKind::Newtype } else { VKind::Struct }, g));
    }
    let mut gl = short(long(val("global", Kind::Vec, Ty::PStr)), 'G');
    gl.global = true;
    cmd("ManySub", vec![Field::Arg(gl), sub("task", false, "Tasks", vs)])
}

/// Four levels deep, the same global name shadowed at some of them.
fn deep() -> Cmd {
    let mk = |n: usize, next: Option<Field>| {
        let mut lv = short(long(val("level", Kind::Option, Ty::PStr)), 'l');
        lv.global = n != 2;
        let mut all = long(val(&format!("at_{n}"), Kind::Vec, Ty::POs));
        all.global = true;
        let mut f = vec![Field::Arg(all), Field::Arg(short(val("quick", Kind::Bool, Ty::PStr), 'q'))];
        if n != 3 {
            f.push(Field::Arg(lv));
        }
        f.push(Field::Arg(val("what", Kind::Option, Ty::PStr)));
        f.extend(next);
        cmd(&format!("Deep{n}"), f)
    };
    let d4 = mk(4, None);
    let d3 = mk(3, Some(sub("next", true, "DeepSub3", vec![v("Four", "four", VKind::Newtype, d4)])));
    let d2 = mk(2, Some(sub("next", true, "DeepSub2", vec![v("Three", "three", VKind::Struct, d3), v("Tri", "tri", VKind::Unit, Cmd::default())])));
    let d1 = mk(1, Some(sub("next", true, "DeepSub1", vec![v("Two", "two", VKind::Newtype, d2)])));
    mk(0, Some(sub("next", false, "DeepSub0", vec![v("One", "one", VKind::Newtype, d1), v("Uno", "uno", VKind::Unit, Cmd::default())])))
}

/// Like a wrapper program: options, then a command line that is passed through.
fn wrapper() -> Cmd {
    let mut rest = val("command", Kind::Vec, Ty::POs);
    rest.trailing = true;
    rest.required = true;
    let mut env = short(long(val("env", Kind::Vec, Ty::POs)), 'e');
    env.delim = Some(',');
    let mut last = val("extra", Kind::OptVec, Ty::PStr);
    last.last = true;
    cmd("Wrapper", vec![
        Field::Arg(short(long(val("verbose", Kind::Bool, Ty::PStr)), 'v')),
        Field::Arg(env),
        Field::Arg(val("host", Kind::Value, Ty::PStr)),
        Field::Arg(rest),
        Field::Arg(last),
    ])
}

/// Every kind of default that help shows, across groups, with text after the options.
fn defaults_everywhere() -> Cmd {
    let d = |id: &str, ty: Ty, t: &str| {
        let mut a = long(val(id, Kind::Value, ty));
        a.default = Dflt::Typed { expr: Some(format!("{}::dflt({t:?})", ty.rust())), obs: t.into() };
        a.doc = Some(format!("Doc of {id}."));
        Field::Arg(a)
    };
    let inner = cmd("DfltInner", vec![d("deep_one", Ty::PStr, "dfltI1"), d("deep_two", Ty::POs, "dfltI2")]);
    let mut inner2 = cmd("DfltInner2", vec![d("side", Ty::PBoth, "dfltJ1"), Field::Flatten("more".into(), inner)]);
    inner2.after_help = Some("never shown\n".into());
    let mut txt = long(val("text", Kind::Option, Ty::PStr));
    txt.default = Dflt::Text("dfltT".into());
    let mut subc = cmd("DfltSub", vec![d("sub_opt", Ty::PStr, "dfltS1"), d("sub_opt_b", Ty::PStr, "dfltS2")]);
    subc.after_help = Some("After the subcommand's options.\nTwo lines.\n".into());
    let mut c = cmd("Dflts", vec![
        d("first", Ty::PStr, "dfltA"),
        Field::Arg(short(val("flag", Kind::Bool, Ty::PStr), 'f')),
        Field::Flatten("group".into(), inner2),
        d("second", Ty::POs, "dfltB"),
        Field::Arg(txt),
        d("third", Ty::PBoth, "dfltC"),
        sub("cmd", true, "DfltCmds", vec![v("Go", "go", VKind::Newtype, subc), v("Stop", "stop", VKind::Unit, Cmd { doc: Some("Stops.".into()), ..Default::default() })]),
    ]);
    c.after_help = Some("EXAMPLES:\n  dflts --first=1\n".into());
    c
}

/// Constraint web.
fn web() -> Cmd {
    let mut a = long(val("a", Kind::Option, Ty::PStr));
    a.requires = vec!["b".into(), "c".into()];
    let mut b = long(val("b", Kind::Vec, Ty::PStr));
    b.conflicts = vec!["d".into(), "p".into()];
    let mut c = short(long(val("c", Kind::Bool, Ty::PStr)), 'c');
    c.requires = vec!["p".into()];
    let mut d = long(val("d", Kind::OptVec, Ty::POs));
    d.requires = vec!["e".into()];
    let mut e = long(val("e", Kind::Option, Ty::PStr));
    e.default = Dflt::Text("dfltE".into());
    e.conflicts = vec!["c".into()];
    let mut x = long(val("only", Kind::Bool, Ty::PStr));
    x.exclusive = true;
    let mut y = long(val("solo", Kind::Option, Ty::POs));
    y.exclusive = true;
    let mut o = long(val("oo", Kind::OptOpt, Ty::PStr));
    o.require_eq = true;
    o.requires = vec!["a".into()];
    let p = val("p", Kind::Option, Ty::PStr);
    let mut q = val("rest", Kind::Vec, Ty::PStr);
    q.conflicts = vec!["a".into()];
    let mut inner = cmd("WebSub", vec![]);
    let mut m = long(val("must", Kind::OptVec, Ty::PStr));
    m.required = true;
    let mut n = short(val("never", Kind::Bool, Ty::PStr), 'n');
    n.exclusive = true;
    inner.fields = vec![Field::Arg(m), Field::Arg(n), Field::Arg(val("w", Kind::Option, Ty::PStr))];
    cmd("Web", vec![
        Field::Arg(a), Field::Arg(b), Field::Arg(c), Field::Arg(d), Field::Arg(e), Field::Arg(x),
        Field::Arg(y), Field::Arg(o), Field::Arg(p), Field::Arg(q),
        sub("cmd", true, "WebCmds", vec![v("Act", "act", VKind::Newtype, inner), v("Idle", "idle", VKind::Unit, Cmd::default())]),
    ])
}

/// A definition that takes over `-h` and `--help` at the top but not below.
fn own_help() -> Cmd {
    let leaf = cmd("OwnLeaf", vec![Field::Arg(long(val("x", Kind::Option, Ty::PStr)))]);
    cmd("OwnHelp", vec![
        Field::Arg(short(val("host", Kind::Option, Ty::PStr), 'h')),
        Field::Arg(Arg { long: Name::Explicit("help".into()), ..val("aid", Kind::OptOpt, Ty::PStr) }.with_eq()),
        sub("cmd", true, "OwnCmds", vec![v("Leaf", "leaf", VKind::Newtype, leaf)]),
    ])
}
impl Arg {
    fn with_eq(mut self) -> Self {
        self.require_eq = true;
        self
    }
}

fn plain_values() -> Cmd {
    let mut fields = Vec::new();
    for (i, ty) in ALL_TY.iter().enumerate() {
        let c = char::from(b"klmnopqrstuvwxyzabcdefg"[i]);
        let mut a = short(long(val(&format!("v_{}", c), Kind::Vec, *ty)), c);
        a.ignore_case = ty.allows_ignore_case();
        fields.push(Field::Arg(a));
        if *ty != Ty::BoolV {
            let mut o = long(val(&format!("s_{}", c), Kind::Option, *ty));
            o.hyphen = if i % 2 == 0 { Hyphen::Any } else { Hyphen::Num };
            fields.push(Field::Arg(o));
        }
    }
    fields.push(Field::Arg(val("rest", Kind::Vec, Ty::OsStr)));
    cmd("Plain", fields)
}

fn empty() -> Cmd {
    cmd("Empty", vec![])
}

pub const HANDMADE: usize = 11;

/// The `i`-th definition of the family selected by `seed`.
pub fn cli(seed: u64, i: usize) -> Cmd {
    match i {
        0 => empty(),
        1 => huge(),
        2 => many_positionals(),
        3 => many_subcommands(),
        4 => deep(),
        5 => wrapper(),
        6 => defaults_everywhere(),
        7 => web(),
        8 => own_help(),
        9 => plain_values(),
        10 => {
            // A flattened chain: three groups deep, same shapes at each depth.
            let g3 = cmd("Chain3", vec![Field::Arg(short(long(val("three", Kind::Vec, Ty::PStr)), 't'))]);
            let g2 = cmd("Chain2", vec![
                Field::Flatten("g3".into(), g3),
                Field::Arg(short(long(val("two", Kind::Value, Ty::POs)), 'w')),
            ]);
            let mut one = short(long(val("one", Kind::Option, Ty::PStr)), 'o');
            one.global = true;
            let g1 = cmd("Chain1", vec![Field::Arg(one), Field::Flatten("g2".into(), g2)]);
            let leaf = cmd("ChainLeaf", vec![
                Field::Arg(val("item", Kind::Value, Ty::PStr)),
                Field::Flatten("g".into(), cmd("ChainLeafG", vec![Field::Arg(short(long(val("two", Kind::Option, Ty::PStr)), 'w'))])),
            ]);
            cmd("Chain", vec![
                Field::Flatten("g1".into(), g1),
                Field::Arg(short(val("flag", Kind::Bool, Ty::PStr), 'f')),
                Field::Arg(val("pos", Kind::Option, Ty::PStr)),
                sub("cmd", true, "ChainCmds", vec![v("Leaf", "leaf", VKind::Newtype, leaf)]),
            ])
        }
        _ => random_cli(seed, i),
    }
}

pub fn all(seed: u64, count: usize) -> Vec<Cmd> {
    (0..count).map(|i| cli(seed, i)).collect()
}
