//! Seeded value enums: how they are declared, and the names their variants must have.

use crate::rng::Rng;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::{Mutex, OnceLock};

pub const KEYWORDS: &[&str] = &[
    "in", "mod", "use", "type", "loop", "move", "ref", "as", "match", "fn", "async", "yield", "static", "final", "try",
    "gen", "abstract", "let", "impl", "dyn",
];

/// An identifier as it must be written in source.
pub fn code_ident(s: &str) -> String {
    if KEYWORDS.contains(&s) { format!("r#{s}") } else { s.to_string() }
}

const IDENTS: &[&str] = &[
    "Foo", "FooBar", "FooBAR", "FOOBar", "Foobar", "foo", "fooBar", "foo_bar", "Foo_Bar", "FOO_BAR", "FOO", "_Foo", "Foo_",
    "F__B", "HTTPServer", "XMLHttpRequest", "A", "AB", "ABc", "AbC", "B", "V1", "V10", "V2Beta", "V2beta", "X86_64", "Ipv6Addr",
    "R2D2", "A1B", "a1B", "Élan", "ÄÖÜ", "Straße", "ÉcoleNormale", "naïveÉtat", "Ǆungla", "日本", "日本Go", "IBMé", "None", "Some", "Ok",
    "Err", "Default", "True", "False", "String", "Option", "Auto", "Always", "Never", "On", "Off", "OnOff", "Loud", "LoudER", "Quiet",
    "QuietEr", "type", "match", "r#in", "async", "Level1", "Level12", "Level123", "LongerNameThanTheOthers", "Longer",
];
const NAMES: &[&str] = &[
    "", " ", "a", "A", "a b", " a", "a ", "-", "--", "-5", "--foo", "x=y", "=", "a,b", ",", ":", "a:b", "é", "É", "naïve", "日本", "😀",
    "FOO-bar", "foo-bar", "foo bar", "{}", "{0}", "%s", "\"", "'", "\\", "\\n", "[x]", "a|b", "\u{a0}", "\u{feff}a", "e\u{301}", "ß", "ẞ", "ſ",
    "0", "00", "1.0", "none", "true", "v1", "V1", "help", "very-long-name-of-a-value-that-goes-on-and-on-and-on",
];

#[derive(Clone, Debug)]
pub struct ValueEnum {
    pub rename: Option<&'static str>,
    /// Identifier (without `r#`) and explicit name.
    pub variants: Vec<(String, Option<String>)>,
}

/// The words an identifier consists of.
fn words(ident: &str) -> Vec<String> {
    let mut out = Vec::new();
    for part in ident.split(|c: char| !c.is_alphanumeric()) {
        let cs: Vec<char> = part.chars().collect();
        let mut cur = String::new();
        for (i, &c) in cs.iter().enumerate() {
            // The last letter with a case before this character, within the word so far.
            let before = cur.chars().rev().find(|x| x.is_lowercase() || x.is_uppercase());
            let start = c.is_uppercase()
                && (before.is_some_and(char::is_lowercase)
                    || before.is_some_and(char::is_uppercase) && cs.get(i + 1).is_some_and(|n| n.is_lowercase()));
            if start && !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.push(c);
        }
        if !cur.is_empty() {
            out.push(cur);
        }
    }
    out
}

fn lower(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).collect()
}
fn upper(s: &str) -> String {
    s.chars().flat_map(char::to_uppercase).collect()
}
fn capital(s: &str) -> String {
    let mut c = s.chars();
    c.next().map_or(String::new(), |f| upper(&f.to_string()) + &lower(c.as_str()))
}

/// The documented case conversions.
pub fn rename(rule: Option<&str>, ident: &str) -> String {
    let w = words(ident);
    match rule {
        Some("camelCase") => w
            .iter()
            .enumerate()
            .map(|(i, x)| if i == 0 { lower(x) } else { capital(x) })
            .collect(),
        None | Some("kebab-case") => w.iter().map(|x| lower(x)).collect::<Vec<_>>().join("-"),
        Some("PascalCase") => w.iter().map(|x| capital(x)).collect(),
        Some("SCREAMING_SNAKE_CASE") => w.iter().map(|x| upper(x)).collect::<Vec<_>>().join("_"),
        Some("snake_case") => w.iter().map(|x| lower(x)).collect::<Vec<_>>().join("_"),
        Some("lower") => lower(ident),
        Some("UPPER") => upper(ident),
        Some("verbatim") => ident.to_string(),
        Some(r) => panic!("no such rule: {r}"),
    }
}

const RULES: &[Option<&str>] = &[
    None,
    Some("camelCase"),
    Some("kebab-case"),
    Some("PascalCase"),
    Some("SCREAMING_SNAKE_CASE"),
    Some("snake_case"),
    Some("lower"),
    Some("UPPER"),
    Some("verbatim"),
];

impl ValueEnum {
    pub fn new(id: u32) -> Self {
        let mut r = Rng::from_parts(&[0xE5, u64::from(id)]);
        let rename_rule = *r.pick(RULES);
        let n = match r.below(12) {
            0 => 1,
            1 => r.range(12, 30),
            _ => r.range(2, 9),
        };
        let mut variants: Vec<(String, Option<String>)> = Vec::new();
        let mut taken: Vec<String> = Vec::new();
        for _ in 0..n * 3 {
            if variants.len() == n {
                break;
            }
            let ident = r.pick(IDENTS).trim_start_matches("r#").to_string();
            let name = r.pct(25).then(|| (*r.pick(NAMES)).to_string());
            let shown = name.clone().unwrap_or_else(|| rename(rename_rule, &ident));
            if variants.iter().any(|v| v.0 == ident) || taken.contains(&shown) {
                continue;
            }
            taken.push(shown);
            variants.push((ident, name));
        }
        ValueEnum { rename: rename_rule, variants }
    }

    pub fn table(&self) -> Vec<(String, String)> {
        let mut t: Vec<(String, String)> = self
            .variants
            .iter()
            .map(|(i, n)| (n.clone().unwrap_or_else(|| rename(self.rename, i)), i.clone()))
            .collect();
        t.sort();
        t
    }

    pub fn code(&self, ty_name: &str) -> String {
        let mut o = String::new();
        writeln!(o, "#[derive(Clone, Copy, palc::ValueEnum)]").unwrap();
        if let Some(r) = self.rename {
            writeln!(o, "#[value(rename_all = {r:?})]").unwrap();
        }
        writeln!(o, "pub enum {ty_name} {{").unwrap();
        for (i, n) in &self.variants {
            if let Some(n) = n {
                writeln!(o, "    #[value(name = {n:?})]").unwrap();
            }
            writeln!(o, "    {},", code_ident(i)).unwrap();
        }
        writeln!(o, "}}").unwrap();
        writeln!(o, "impl simrt::vals::ObsVal for {ty_name} {{ fn obs(&self) -> Vec<u8> {{ match *self {{").unwrap();
        for (i, _) in &self.variants {
            writeln!(o, "    Self::{} => {i:?}.into(),", code_ident(i)).unwrap();
        }
        writeln!(o, "}} }} }}\n").unwrap();
        o
    }
}

type Table = &'static [(&'static str, &'static str)];

/// (accepted name, variant identifier), sorted by name.
pub fn table(id: u32) -> Table {
    static T: OnceLock<Mutex<BTreeMap<u32, Table>>> = OnceLock::new();
    let mut m = T.get_or_init(Mutex::default).lock().unwrap();
    m.entry(id).or_insert_with(|| {
        let s = |s: String| &*s.leak();
        ValueEnum::new(id).table().into_iter().map(|(a, b)| (s(a), s(b))).collect::<Vec<_>>().leak()
    })
}
