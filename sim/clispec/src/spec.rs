//! The description of a CLI definition, independent of how palc represents it.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    /// Probe converted from text; its error is a struct.
    PStr,
    /// Probe converted from an OS string; its error is a `String`.
    POs,
    /// Probe with both conversions; only the OS-string one may be used.
    PBoth,
    Str,
    OsStr,
    Path,
    U8,
    I32,
    Char,
    BoolV,
    EnumA,
    EnumB,
    EnumC,
    EnumD,
    U64,
    F64,
    BoxOs,
    Ip,
    NonZero,
    /// Derived enum that also has both conversions; only the derived parser may be used.
    EnumP,
    /// Probe with an OS-string conversion that cannot fail, and a text conversion.
    PFrom,
    /// Probe whose OS-string conversion is unusable (its error is no error type): text it is.
    PText,
    /// A seeded enum, declared next to the definition that uses it.
    Gen(u32),
}

pub const ALL_TY: [Ty; 22] = [
    Ty::PStr,
    Ty::POs,
    Ty::PBoth,
    Ty::Str,
    Ty::OsStr,
    Ty::Path,
    Ty::U8,
    Ty::I32,
    Ty::Char,
    Ty::BoolV,
    Ty::EnumA,
    Ty::EnumB,
    Ty::EnumC,
    Ty::EnumD,
    Ty::U64,
    Ty::F64,
    Ty::BoxOs,
    Ty::Ip,
    Ty::NonZero,
    Ty::EnumP,
    Ty::PFrom,
    Ty::PText,
];

/// (accepted name, variant identifier), sorted by name as the possible-values list shows them.
pub const ENUM_A: &[(&str, &str)] =
    &[("always", "Always"), ("auto", "Auto"), ("never", "Never"), ("no-op", "NoOp")];
pub const ENUM_B: &[(&str, &str)] =
    &[("FAST", "Fast"), ("FAST_MODE", "FastMode"), ("SLOW_MODE", "SlowMode")];
pub const ENUM_C: &[(&str, &str)] = &[("a b", "AB"), ("naïve", "Naive"), ("x=y", "XY"), ("é", "E")];

/// Many, and names that are one another's beginnings.
pub const ENUM_D: &[(&str, &str)] = &[
    ("", "Empty"), ("-5", "MinusFive"), ("a", "A"), ("a,b", "Comma"), ("aB", "AB"), ("aBC", "ABC"), ("abC", "AbC"),
    ("default", "Default"), ("fooBar", "FooBar"), ("fooBarBaz", "FooBarBaz"), ("fooBaz", "FooBaz"),
    ("none", "None"), ("off", "Off"), ("on", "On"), ("onOff", "OnOff"), ("some", "Some"), ("v1", "V1"), ("v10", "V10"),
    ("v2", "V2"), ("x86_64", "X8664"),
];

pub const ENUM_P: &[(&str, &str)] = &[("fast", "Fast"), ("slow", "Slow"), ("x-large", "XLarge")];

impl Ty {
    pub fn rust(self) -> String {
        let s = match self {
            Ty::Gen(id) => return format!("GenEnum{id}"),
            Ty::EnumP => "simrt::vals::EnumP",
            Ty::PFrom => "simrt::vals::PFrom",
            Ty::PText => "simrt::vals::PText",
            Ty::PStr => "simrt::vals::PStr",
            Ty::POs => "simrt::vals::POs",
            Ty::PBoth => "simrt::vals::PBoth",
            Ty::Str => "String",
            Ty::OsStr => "std::ffi::OsString",
            Ty::Path => "std::path::PathBuf",
            Ty::U8 => "u8",
            Ty::I32 => "i32",
            Ty::Char => "char",
            Ty::BoolV => "bool",
            Ty::EnumA => "simrt::vals::EnumA",
            Ty::EnumB => "simrt::vals::EnumB",
            Ty::EnumC => "simrt::vals::EnumC",
            Ty::EnumD => "simrt::vals::EnumD",
            Ty::U64 => "u64",
            Ty::F64 => "f64",
            Ty::BoxOs => "Box<std::ffi::OsStr>",
            Ty::Ip => "std::net::IpAddr",
            Ty::NonZero => "std::num::NonZeroU16",
        };
        s.into()
    }
    /// A small number, for digests.
    pub fn index(self) -> u8 {
        ALL_TY.iter().position(|t| *t == self).map_or(99, |i| i as u8)
    }
    /// Converted through a callback that records, and counted in the ledger.
    pub fn is_probe(self) -> bool {
        matches!(self, Ty::PStr | Ty::POs | Ty::PBoth | Ty::PFrom | Ty::PText)
    }
    /// Converted from text, so that the value must be text.
    pub fn text_probe(self) -> bool {
        matches!(self, Ty::PStr | Ty::PText)
    }
    /// Its conversion's error is a type of ours, so that `source()` shows which one it is.
    pub fn own_error(self) -> bool {
        matches!(self, Ty::PStr | Ty::PBoth)
    }
    /// More than one conversion could be used for it.
    pub fn ambiguous(self) -> bool {
        matches!(self, Ty::PBoth | Ty::EnumP | Ty::PFrom | Ty::PText)
    }
    pub fn enum_table(self) -> Option<&'static [(&'static str, &'static str)]> {
        match self {
            Ty::EnumA => Some(ENUM_A),
            Ty::EnumB => Some(ENUM_B),
            Ty::EnumC => Some(ENUM_C),
            Ty::EnumD => Some(ENUM_D),
            Ty::EnumP => Some(ENUM_P),
            Ty::Gen(id) => Some(crate::enums::table(id)),
            _ => None,
        }
    }
    pub fn allows_ignore_case(self) -> bool {
        self.enum_table().is_some_and(|t| t.iter().all(|x| !x.0.bytes().any(|b| b.is_ascii_uppercase())))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Bool,
    Value,
    Option,
    OptOpt,
    Vec,
    OptVec,
}

impl Kind {
    pub fn takes_value(self) -> bool {
        !matches!(self, Kind::Bool | Kind::OptOpt)
    }
    pub fn multi(self) -> bool {
        matches!(self, Kind::Vec | Kind::OptVec)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hyphen {
    No,
    Any,
    Num,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Name<T> {
    No,
    Inherit,
    Explicit(T),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dflt {
    No,
    /// `default_value_t` (with or without expression): the value, as observed.
    Typed { expr: Option<String>, obs: Vec<u8> },
    /// `default_value = ".."`
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub ident: String,
    pub kind: Kind,
    pub ty: Ty,
    pub long: Name<String>,
    pub short: Name<char>,
    pub alias: Vec<String>,
    pub short_alias: Vec<char>,
    pub require_eq: bool,
    pub global: bool,
    pub hyphen: Hyphen,
    pub ignore_case: bool,
    pub delim: Option<char>,
    pub default: Dflt,
    pub required: bool,
    pub exclusive: bool,
    pub requires: Vec<String>,
    pub conflicts: Vec<String>,
    pub hide: bool,
    pub value_name: Option<String>,
    pub doc: Option<String>,
    pub trailing: bool,
    pub last: bool,
}

impl Arg {
    pub fn is_named(&self) -> bool {
        self.long != Name::No || self.short != Name::No
    }
    pub fn long_name(&self) -> Option<String> {
        match &self.long {
            Name::No => None,
            Name::Inherit => Some(crate::enums::rename(None, &self.ident)),
            Name::Explicit(s) => Some(s.clone()),
        }
    }
    pub fn short_name(&self) -> Option<char> {
        match &self.short {
            Name::No => None,
            Name::Inherit => self.ident.chars().next(),
            Name::Explicit(c) => Some(*c),
        }
    }
    pub fn longs(&self) -> Vec<String> {
        self.long_name().into_iter().chain(self.alias.iter().cloned()).collect()
    }
    pub fn shorts(&self) -> Vec<char> {
        self.short_name().into_iter().chain(self.short_alias.iter().copied()).collect()
    }
    /// Must it be given (explicitly or because nothing else can provide the value)?
    pub fn must_be_given(&self) -> bool {
        self.default == Dflt::No && (self.required || self.kind == Kind::Value)
    }
    /// How messages call this argument.
    pub fn desc(&self) -> String {
        let vn = self.value_name.clone().unwrap_or_else(|| crate::enums::rename(Some("SCREAMING_SNAKE_CASE"), &self.ident));
        if self.is_named() {
            let mut s = match (self.short_name(), self.long_name()) {
                (Some(c), Some(l)) => format!("-{c}, --{l}"),
                (None, Some(l)) => format!("--{l}"),
                (Some(c), None) => format!("-{c}"),
                (None, None) => unreachable!(),
            };
            if self.kind == Kind::OptOpt {
                s += &format!("[=<{vn}>]");
            } else if self.kind.takes_value() {
                s += &format!("{}<{vn}>", if self.require_eq { "=" } else { " " });
            }
            s
        } else {
            let mut s =
                if self.must_be_given() { format!("<{vn}>") } else { format!("[{vn}]") };
            if self.kind.multi() {
                s += "...";
            }
            s
        }
    }
}

#[derive(Clone, Debug)]
pub enum Field {
    Arg(Arg),
    Flatten(String, Cmd),
    Sub(Sub),
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub ident: String,
    pub optional: bool,
    pub enum_name: String,
    pub variants: Vec<Variant>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum VKind {
    Unit,
    Newtype,
    Struct,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub ident: String,
    /// The subcommand name as typed.
    pub name: String,
    pub kind: VKind,
    /// Empty for unit variants.
    pub cmd: Cmd,
}

#[derive(Clone, Debug)]
pub enum About {
    /// The package's description.
    Inherit,
    Explicit(String),
    /// An expression, evaluated and formatted each time.
    Runtime(String),
}

/// What the packages of the definitions are described as.
pub const PKG_DESCRIPTION: &str = "Simulated {programs}, generated.";

/// Documentation as help shows it: paragraphs, one per line.
pub fn paragraphs(doc: &str) -> Vec<String> {
    let lines: Vec<&str> = doc.lines().map(str::trim_ascii).collect();
    lines.split(|l| l.is_empty()).filter(|p| !p.is_empty()).map(|p| p.join(" ")).collect()
}

#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub ty_name: String,
    pub doc: Option<String>,
    pub long_about: Option<About>,
    pub after_help: Option<String>,
    /// As an expression, evaluated and formatted each time.
    pub after_runtime: bool,
    pub fields: Vec<Field>,
}

impl Cmd {
    /// What the command is described as in help.
    pub fn about(&self) -> String {
        match &self.long_about {
            Some(About::Inherit) => PKG_DESCRIPTION.into(),
            Some(About::Explicit(t) | About::Runtime(t)) => t.clone(),
            None => paragraphs(self.doc.as_deref().unwrap_or("")).join("\n"),
        }
    }
    pub fn args(&self) -> impl Iterator<Item = &Arg> {
        self.fields.iter().filter_map(|f| match f {
            Field::Arg(a) => Some(a),
            _ => None,
        })
    }
    pub fn flattens(&self) -> impl Iterator<Item = (&str, &Cmd)> {
        self.fields.iter().filter_map(|f| match f {
            Field::Flatten(i, c) => Some((i.as_str(), c)),
            _ => None,
        })
    }
    pub fn sub(&self) -> Option<&Sub> {
        self.fields.iter().find_map(|f| match f {
            Field::Sub(s) => Some(s),
            _ => None,
        })
    }
    /// Positionals in filling order: singles in definition order, then the variable-length one,
    /// then the one only reachable after `--`.
    pub fn positionals(&self) -> Vec<&Arg> {
        let pos: Vec<&Arg> = self.args().filter(|a| !a.is_named()).collect();
        let mut out: Vec<&Arg> =
            pos.iter().copied().filter(|a| !a.kind.multi() && !a.last).collect();
        out.extend(pos.iter().copied().filter(|a| a.kind.multi() && !a.last));
        out.extend(pos.iter().copied().filter(|a| a.last));
        out
    }
    /// This command and the groups flattened into it, transitively.
    pub fn groups(&self) -> Vec<&Cmd> {
        let mut v = vec![self];
        for (_, c) in self.flattens() {
            v.extend(c.groups());
        }
        v
    }
    pub fn visit_cmds<'a>(&'a self, f: &mut dyn FnMut(&'a Cmd)) {
        f(self);
        for (_, c) in self.flattens() {
            c.visit_cmds(f);
        }
        if let Some(s) = self.sub() {
            for v in &s.variants {
                v.cmd.visit_cmds(f);
            }
        }
    }
}

/// What a parse returned, as seen from outside.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Obs {
    Flag(bool),
    Absent,
    /// Present without value (`Option<Option<_>>`).
    Bare,
    One(Vec<u8>),
    Many(Vec<Vec<u8>>),
    Struct(Vec<(String, Obs)>),
    Variant(String, Box<Obs>),
}

impl Obs {
    pub fn show(&self) -> String {
        match self {
            Obs::Flag(b) => b.to_string(),
            Obs::Absent => "absent".into(),
            Obs::Bare => "bare".into(),
            Obs::One(v) => show_bytes(v),
            Obs::Many(v) => {
                format!("[{}]", v.iter().map(|x| show_bytes(x)).collect::<Vec<_>>().join(", "))
            }
            Obs::Struct(v) => format!(
                "{{{}}}",
                v.iter().map(|(n, o)| format!("{n}: {}", o.show())).collect::<Vec<_>>().join(", ")
            ),
            Obs::Variant(n, o) => format!("{n}{}", o.show()),
        }
    }
}

pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for c in b.utf8_chunks() {
        s.extend(c.valid().escape_debug());
        for x in c.invalid() {
            s += &format!("\\x{x:02X}");
        }
    }
    s.push('"');
    s
}
