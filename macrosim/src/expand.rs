//! One expansion and what it looks like from outside.

use clispec::rng::fnv;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub const KINDS: [&str; 4] = ["Parser", "Args", "Subcommand", "ValueEnum"];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Def {
    pub kind: String,
    pub text: String,
    pub expect: Expect,
}

/// What is known of a definition.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    Any,
    /// Sound: must expand without a diagnostic.
    Good,
    /// Contradictory: must yield a diagnostic, one of them in one of these ranges of columns of its
    /// only line (anywhere if there are none).
    Bad(Vec<(usize, usize)>),
    /// Many contradictions: there must be a diagnostic in each of these ranges.
    Each(Vec<(usize, usize)>),
}

impl Expect {
    pub fn line(&self) -> String {
        match self {
            Expect::Any => "any".into(),
            Expect::Good => "sound".into(),
            Expect::Bad(v) if v.is_empty() => "malformed".into(),
            Expect::Bad(v) | Expect::Each(v) => format!(
                "{}:{}",
                if matches!(self, Expect::Bad(_)) { "malformed" } else { "each" },
                v.iter().map(|(a, b)| format!("{a}-{b}")).collect::<Vec<_>>().join(",")
            ),
        }
    }
    pub fn parse(s: &str) -> Option<Self> {
        let (k, r) = s.split_once(':').unwrap_or((s, ""));
        Some(match k {
            "any" => Expect::Any,
            "sound" => Expect::Good,
            "malformed" if r.is_empty() => Expect::Bad(vec![]),
            "malformed" | "each" => {
                let v = r.split(',').map(|x| x.split_once('-').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))).collect::<Option<_>>()?;
                if k == "each" { Expect::Each(v) } else { Expect::Bad(v) }
            }
            _ => return None,
        })
    }
    pub fn is_bad(&self) -> bool {
        matches!(self, Expect::Bad(_) | Expect::Each(_))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Outcome {
    /// The text is not a sequence of tokens (not a definition at all).
    pub not_tokens: bool,
    pub panic: Option<String>,
    pub code: u64,
    pub spans: u64,
    pub tokens: u64,
    /// Messages of the diagnostics with their places, in order.
    pub diags: Vec<String>,
    /// The code, if asked for.
    pub text: String,
}

impl Outcome {
    pub fn line(&self) -> String {
        let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
        let mut s = format!(
            "o\t{}\t{}\t{:x}\t{:x}\t{}\t{}\t{}",
            u8::from(self.not_tokens),
            self.panic.as_ref().map_or("-".to_string(), |p| format!("P{}", esc(p))),
            self.code,
            self.spans,
            self.tokens,
            esc(&self.text),
            self.diags.len()
        );
        for d in &self.diags {
            s += "\t";
            s += &esc(d);
        }
        s + "\n"
    }
    pub fn parse(l: &str) -> Option<Self> {
        let un = |s: &str| {
            let mut o = String::new();
            let mut c = s.chars();
            while let Some(x) = c.next() {
                o.push(match x {
                    '\\' => match c.next() {
                        Some('n') => '\n',
                        Some('t') => '\t',
                        Some(y) => y,
                        None => return o,
                    },
                    x => x,
                });
            }
            o
        };
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 8 || f[0] != "o" {
            return None;
        }
        Some(Self {
            not_tokens: f[1] == "1",
            panic: f[2].strip_prefix('P').map(un),
            code: u64::from_str_radix(f[3], 16).ok()?,
            spans: u64::from_str_radix(f[4], 16).ok()?,
            tokens: f[5].parse().ok()?,
            text: un(f[6]),
            diags: f[8..].iter().map(|s| un(s)).collect(),
        })
    }
    /// Where the diagnostics start: lines and columns.
    pub fn places(&self) -> Vec<(usize, usize)> {
        self.diags
            .iter()
            .filter_map(|d| {
                let (_, p) = d.rsplit_once(" @")?;
                let (l, c) = p.split_once('-')?.0.split_once(':')?;
                Some((l.parse().ok()?, c.parse().ok()?))
            })
            .collect()
    }
    /// What differs from the expansion in a pristine process, if anything.
    pub fn differs(&self, p: &Outcome) -> Option<String> {
        if self.panic != p.panic {
            return Some(format!("panic {:?} instead of {:?}", self.panic, p.panic));
        }
        if self.diags != p.diags {
            return Some(format!("diagnostics {:?} instead of {:?}", self.diags, p.diags));
        }
        if self.code != p.code {
            return Some(format!("different code ({} instead of {} tokens)", self.tokens, p.tokens));
        }
        if self.spans != p.spans {
            return Some("same code at different source positions".into());
        }
        None
    }
}

fn place(s: proc_macro2::Span) -> String {
    let (a, b) = (s.start(), s.end());
    format!("{}:{}-{}:{}", a.line, a.column, b.line, b.column)
}

fn walk(ts: TokenStream, o: &mut Outcome) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        o.tokens += 1;
        let s = match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "<none>",
                };
                d.to_string()
            }
            TokenTree::Ident(x) => format!("i{x}"),
            TokenTree::Punct(p) => format!("p{}{:?}", p.as_char(), p.spacing()),
            TokenTree::Literal(l) => format!("l{l}"),
        };
        o.code = fnv(o.code, s.as_bytes());
        o.code = fnv(o.code, b"\0");
        o.spans = fnv(o.spans, place(t.span()).as_bytes());
        if let TokenTree::Group(g) = t {
            if i >= 2
                && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '!')
                && matches!(&v[i - 2], TokenTree::Ident(x) if x == "compile_error")
            {
                o.diags.push(format!("{} @{}", g.stream(), place(v[i - 2].span())));
            }
            walk(g.stream(), o);
            o.code = fnv(o.code, b")");
        }
    }
}

/// Must be called from harness code.
pub fn expand(d: &Def, want_text: bool) -> Outcome {
    let mut o = Outcome::default();
    let Ok(ts) = d.text.parse::<TokenStream>() else {
        o.not_tokens = true;
        return o;
    };
    let r = crate::alloc::under_test(|| {
        crate::env::in_macro(|| catch_unwind(AssertUnwindSafe(|| palc_derive_lib::__palcsim_dispatch(&d.kind, ts))))
    });
    match r {
        Ok(ts) => {
            if want_text {
                o.text = ts.to_string();
            }
            walk(ts, &mut o);
        }
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            o.panic = Some(m);
        }
    }
    o
}
