//! Turns definitions into Rust source using palc's derive macros.

use crate::enums::{KEYWORDS, ValueEnum, code_ident};
use crate::spec::*;
use std::collections::BTreeSet;
use std::fmt::Write;

fn lit(s: &str) -> String {
    format!("{s:?}")
}
/// A reference to a field, as `requires` and `conflicts_with` take it.
fn field_ref(s: &str) -> String {
    lit(&if KEYWORDS.contains(&s) { format!("r#{s}") } else { s.to_string() })
}
fn chr(c: char) -> String {
    format!("{c:?}")
}

fn arg_attrs(a: &Arg) -> Vec<String> {
    let mut v = Vec::new();
    match &a.long {
        Name::No => {}
        Name::Inherit => v.push("long".into()),
        Name::Explicit(s) => v.push(format!("long = {}", lit(s))),
    }
    match &a.short {
        Name::No => {}
        Name::Inherit => v.push("short".into()),
        Name::Explicit(c) => v.push(format!("short = {}", chr(*c))),
    }
    match a.alias.len() {
        0 => {}
        1 => v.push(format!("alias = {}", lit(&a.alias[0]))),
        _ => v.push(format!(
            "aliases = [{}]",
            a.alias.iter().map(|s| lit(s)).collect::<Vec<_>>().join(", ")
        )),
    }
    match a.short_alias.len() {
        0 => {}
        1 => v.push(format!("short_alias = {}", chr(a.short_alias[0]))),
        _ => v.push(format!(
            "short_aliases = [{}]",
            a.short_alias.iter().map(|c| chr(*c)).collect::<Vec<_>>().join(", ")
        )),
    }
    let mut flag = |on: bool, s: &str| {
        if on {
            v.push(format!("{s} = true"));
        }
    };
    flag(a.require_eq, "require_equals");
    flag(a.global, "global");
    flag(a.hyphen == Hyphen::Any, "allow_hyphen_values");
    flag(a.hyphen == Hyphen::Num, "allow_negative_numbers");
    flag(a.ignore_case, "ignore_case");
    flag(a.required, "required");
    flag(a.exclusive, "exclusive");
    flag(a.hide, "hide");
    flag(a.trailing, "trailing_var_arg");
    flag(a.last, "last");
    if let Some(c) = a.delim {
        v.push(if c == ',' {
            "use_value_delimiter = true".into()
        } else {
            format!("value_delimiter = {}", chr(c))
        });
    }
    match &a.default {
        Dflt::No => {}
        Dflt::Typed { expr: None, .. } => v.push("default_value_t".into()),
        Dflt::Typed { expr: Some(e), .. } => v.push(format!("default_value_t = {e}")),
        Dflt::Text(t) => v.push(format!("default_value = {}", lit(t))),
    }
    for r in &a.requires {
        v.push(format!("requires = {}", field_ref(r)));
    }
    match a.conflicts.len() {
        0 => {}
        1 => v.push(format!("conflicts_with = {}", field_ref(&a.conflicts[0]))),
        _ => v.push(format!(
            "conflicts_with_all = [{}]",
            a.conflicts.iter().map(|s| field_ref(s)).collect::<Vec<_>>().join(", ")
        )),
    }
    if let Some(n) = &a.value_name {
        v.push(format!("value_name = {}", lit(n)));
    }
    v
}

pub fn arg_type(a: &Arg) -> String {
    let t = a.ty.rust();
    match a.kind {
        Kind::Bool => "bool".into(),
        Kind::Value => t,
        Kind::Option => format!("Option<{t}>"),
        Kind::OptOpt => format!("Option<Option<{t}>>"),
        Kind::Vec => format!("Vec<{t}>"),
        Kind::OptVec => format!("Option<Vec<{t}>>"),
    }
}

fn doc(out: &mut String, d: &Option<String>, ind: &str) {
    if let Some(d) = d {
        for (i, line) in d.lines().enumerate() {
            if (d.len() + i) % 5 == 0 {
                writeln!(out, "{ind}#[doc = {}]", lit(line)).unwrap();
            } else {
                writeln!(out, "{ind}/// {line}").unwrap();
            }
        }
    }
}

thread_local!(static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

/// What a `macro_rules!` macro around a definition is given; without it, the definition is written out plainly.
struct Mac(Option<Vec<(&'static str, String)>>);

impl Mac {
    fn new(name: &str, n: usize) -> Mac {
        let h = name.bytes().fold(n as u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
        Mac((h % 3 == 0 && !PLAIN.get()).then(Vec::new))
    }

    /// `text` itself, or the name of the parameter that stands for it.
    fn put(&mut self, kind: &'static str, text: String) -> String {
        match &mut self.0 {
            None => text,
            Some(v) => {
                v.push((kind, text));
                format!("$x{}", v.len() - 1)
            }
        }
    }

    fn write(self, out: &mut String, name: &str, item: &str) {
        match self.0 {
            Some(v) if !v.is_empty() => {
                let params = v.iter().enumerate().map(|(i, (k, _))| format!("$x{i}:{k}")).collect::<Vec<_>>().join(", ");
                let given = v.iter().map(|(_, t)| &**t).collect::<Vec<_>>().join(", ");
                write!(out, "macro_rules! define_{name} {{ ({params}) => {{\n{item}}} }}\ndefine_{name}! {{ {given} }}\n").unwrap();
            }
            _ => out.push_str(item),
        }
    }
}

fn fields(out: &mut String, cmd: &Cmd, ind: &str, vis: &str, mac: &mut Mac) {
    for f in &cmd.fields {
        match f {
            Field::Arg(a) => {
                doc(out, &a.doc, ind);
                let mut at = arg_attrs(a);
                if let Some(e) = at.iter_mut().find(|s| s.starts_with("default_value_t = ") || s.starts_with("default_value = ")) {
                    let (key, v) = e.split_once(" = ").unwrap();
                    *e = format!("{key} = {}", mac.put("expr", v.into()));
                }
                if let Some(e) = at.iter_mut().find(|s| s.starts_with("long = ") || s.starts_with("short = ") || s.starts_with("value_delimiter = ")) {
                    let (key, v) = e.split_once(" = ").unwrap();
                    *e = format!("{key} = {}", mac.put("literal", v.into()));
                }
                if !at.is_empty() {
                    writeln!(out, "{ind}#[arg({})]", at.join(", ")).unwrap();
                }
                let ident = if a.ident.len() % 2 == 0 { mac.put("ident", code_ident(&a.ident)) } else { code_ident(&a.ident) };
                let ty = mac.put("ty", arg_type(a));
                writeln!(out, "{ind}{vis}{ident}: {ty},").unwrap();
            }
            Field::Flatten(i, c) => {
                let ty = mac.put("ty", c.ty_name.clone());
                writeln!(out, "{ind}#[command(flatten)]\n{ind}{vis}{}: {ty},", code_ident(i)).unwrap();
            }
            Field::Sub(s) => {
                let t = if s.optional {
                    format!("Option<{}>", s.enum_name)
                } else {
                    s.enum_name.clone()
                };
                let t = mac.put("ty", t);
                writeln!(out, "{ind}#[command(subcommand)]\n{ind}{vis}{}: {t},", code_ident(&s.ident)).unwrap();
            }
        }
    }
}

/// Expression of type `Obs` for the fields of `cmd`; `access` yields a place expression
/// (of reference-able type) for a field.
fn observe(cmd: &Cmd, access: &dyn Fn(&str) -> String) -> String {
    let mut s = String::from("Obs::Struct(vec![");
    for f in &cmd.fields {
        let (ident, e) = match f {
            Field::Arg(a) => {
                let p = access(&code_ident(&a.ident));
                let f = match a.kind {
                    Kind::Bool => "ob::flag",
                    Kind::Value => "ob::one",
                    Kind::Option => "ob::opt",
                    Kind::OptOpt => "ob::optopt",
                    Kind::Vec => "ob::many",
                    Kind::OptVec => "ob::optmany",
                };
                (&a.ident, format!("{f}(&{p})"))
            }
            Field::Flatten(i, _) => (i, format!("Observe::observe(&{})", access(&code_ident(i)))),
            Field::Sub(x) => {
                let p = access(&code_ident(&x.ident));
                let e = if x.optional {
                    format!("ob::optsub(&{p})")
                } else {
                    format!("Observe::observe(&{p})")
                };
                (&x.ident, e)
            }
        };
        write!(s, "(String::from({}), {e}), ", lit(ident)).unwrap();
    }
    s + "])"
}

fn cmd_attrs(out: &mut String, cmd: &Cmd, ind: &str) {
    doc(out, &cmd.doc, ind);
    match &cmd.long_about {
        None => {}
        Some(About::Inherit) => writeln!(out, "{ind}#[command(long_about)]").unwrap(),
        Some(About::Runtime(t)) => {
            writeln!(out, "{ind}#[command(long_about = simrt::vals::Text({}))]", lit(t)).unwrap();
        }
        Some(About::Explicit(t)) => match t.split_once(' ') {
            // A constant expression, not just a literal.
            Some((a, b)) if t.len() % 2 == 0 => {
                writeln!(out, "{ind}#[command(long_about = concat!({}, ' ', {}))]", lit(a), lit(b)).unwrap();
            }
            _ => writeln!(out, "{ind}#[command(long_about = {})]", lit(t)).unwrap(),
        },
    }
    if let Some(a) = &cmd.after_help {
        let e = if cmd.after_runtime { format!("simrt::vals::Text({})", lit(a)) } else { lit(a) };
        writeln!(out, "{ind}#[command(after_long_help = {e})]").unwrap();
    }
}

fn gen_struct(out: &mut String, done: &mut BTreeSet<String>, cmd: &Cmd, derive: &str) {
    if !done.insert(cmd.ty_name.clone()) {
        return;
    }
    let (mut item, mut mac) = (format!("#[derive(palc::{derive})]\n"), Mac::new(&cmd.ty_name, cmd.fields.len()));
    cmd_attrs(&mut item, cmd, "");
    writeln!(item, "pub struct {} {{", cmd.ty_name).unwrap();
    fields(&mut item, cmd, "    ", "pub ", &mut mac);
    writeln!(item, "}}").unwrap();
    mac.write(out, &cmd.ty_name, &item);
    writeln!(
        out,
        "impl Observe for {} {{ fn observe(&self) -> Obs {{ {} }} }}\n",
        cmd.ty_name,
        observe(cmd, &|i| format!("self.{i}"))
    )
    .unwrap();
    gen_children(out, done, cmd);
}

fn gen_children(out: &mut String, done: &mut BTreeSet<String>, cmd: &Cmd) {
    for (_, c) in cmd.flattens() {
        gen_struct(out, done, c, "Args");
    }
    if let Some(s) = cmd.sub() {
        gen_enum(out, done, s);
    }
}

fn gen_enum(out: &mut String, done: &mut BTreeSet<String>, s: &Sub) {
    if !done.insert(s.enum_name.clone()) {
        return;
    }
    let (mut item, mut mac) = (String::new(), Mac::new(&s.enum_name, s.variants.len()));
    writeln!(item, "#[derive(palc::Subcommand)]\npub enum {} {{", s.enum_name).unwrap();
    for v in &s.variants {
        match v.kind {
            VKind::Unit => {
                cmd_attrs(&mut item, &v.cmd, "    ");
                writeln!(item, "    {},", code_ident(&v.ident)).unwrap();
            }
            VKind::Newtype => writeln!(item, "    {}({}),", code_ident(&v.ident), mac.put("ty", v.cmd.ty_name.clone())).unwrap(),
            VKind::Struct => {
                cmd_attrs(&mut item, &v.cmd, "    ");
                writeln!(item, "    {} {{", code_ident(&v.ident)).unwrap();
                fields(&mut item, &v.cmd, "        ", "", &mut mac);
                writeln!(item, "    }},").unwrap();
            }
        }
    }
    writeln!(item, "}}").unwrap();
    mac.write(out, &s.enum_name, &item);
    writeln!(out, "impl Observe for {} {{ fn observe(&self) -> Obs {{ match self {{", s.enum_name)
        .unwrap();
    for v in &s.variants {
        let name = lit(&v.ident);
        match v.kind {
            VKind::Unit => writeln!(
                out,
                "    Self::{} => Obs::Variant(String::from({name}), Box::new(Obs::Struct(vec![]))),",
                code_ident(&v.ident)
            ),
            VKind::Newtype => writeln!(
                out,
                "    Self::{}(x) => Obs::Variant(String::from({name}), Box::new(Observe::observe(x))),",
                code_ident(&v.ident)
            ),
            VKind::Struct => {
                let binds = v
                    .cmd
                    .fields
                    .iter()
                    .map(|f| match f {
                        Field::Arg(a) => code_ident(&a.ident),
                        Field::Flatten(i, _) => code_ident(i),
                        Field::Sub(s) => code_ident(&s.ident),
                    })
                    .collect::<Vec<_>>()
                    .join(", ");
                writeln!(
                    out,
                    "    Self::{} {{ {binds} }} => Obs::Variant(String::from({name}), Box::new({})),",
                    code_ident(&v.ident),
                    observe(&v.cmd, &|i| format!("*{i}"))
                )
            }
        }
        .unwrap();
    }
    writeln!(out, "}} }} }}\n").unwrap();
    for v in &s.variants {
        match v.kind {
            VKind::Unit => {}
            VKind::Newtype => gen_struct(out, done, &v.cmd, "Args"),
            VKind::Struct => gen_children(out, done, &v.cmd),
        }
    }
}

/// Without `macro_rules!` macros.
pub fn generate_plain(clis: &[(usize, Cmd)]) -> String {
    PLAIN.set(true);
    let out = generate(clis);
    PLAIN.set(false);
    out
}

/// One module per CLI plus a table of entries.
pub fn generate(clis: &[(usize, Cmd)]) -> String {
    let mut out = String::from("// @generated\n");
    for (i, c) in clis {
        writeln!(
            out,
            "#[allow(unused_imports, dead_code, unused_variables, unused_assignments, clippy::all)]\nmod cli{i} {{\nuse simrt::{{ob, Obs, Observe}};\n"
        )
        .unwrap();
        let mut enums = BTreeSet::new();
        c.visit_cmds(&mut |c| enums.extend(c.args().filter_map(|a| if let Ty::Gen(id) = a.ty { Some(id) } else { None })));
        for id in enums {
            out.push_str(&ValueEnum::new(id).code(&Ty::Gen(id).rust()));
        }
        gen_struct(&mut out, &mut BTreeSet::new(), c, "Parser");
        writeln!(out, "}}\n").unwrap();
    }
    writeln!(out, "pub static ENTRIES: &[(usize, simrt::Entry)] = &[").unwrap();
    for (i, c) in clis {
        writeln!(out, "    ({i}, simrt::entry!(cli{i}::{})),", c.ty_name).unwrap();
    }
    out.push_str("];\n");
    out
}
