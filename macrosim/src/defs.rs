//! Definitions to expand: valid ones, random ones, and damaged ones.

use crate::expand::{Def, Expect, KINDS};
use clispec::rng::Rng;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};

/// The items with a derive attribute in generated source, and which macro they are for.
pub fn items(src: &str) -> Vec<Def> {
    fn walk(ts: TokenStream, out: &mut Vec<Def>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1))
                && p.as_char() == '#'
                && g.stream().to_string().starts_with("derive")
            {
                let text = g.stream().to_string();
                if let Some(k) = KINDS.iter().find(|k| text.contains(**k)) {
                    let end = (i + 2..v.len())
                        .find(|&j| matches!(&v[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace))
                        .unwrap();
                    let item: TokenStream = v[i + 2..=end].iter().cloned().collect();
                    out.push(Def { kind: k.to_string(), text: item.to_string(), expect: Expect::Any });
                    i = end + 1;
                    continue;
                }
            }
            if let TokenTree::Group(g) = &v[i] {
                walk(g.stream(), out);
            }
            i += 1;
        }
    }
    let mut out = Vec::new();
    walk(src.parse().expect("generated source"), &mut out);
    out
}

pub fn generated(rng: &mut Rng) -> Vec<Def> {
    let seed = rng.next() % 1000;
    let i = rng.below(64);
    let c = clispec::defgen::cli(seed, i);
    items(&clispec::codegen::generate_plain(&[(i, c)]))
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "verbose", "r#type", "file_name", "x1", "long_name_here", "help", "r#fn", "é", "_u", "A", "__x", "__rt", "self_",
    "name", "name2",
];
const TYPES: &[&str] = &[
    "bool", "String", "u8", "Option<bool>", "Option<String>", "Option<Option<u32>>", "Vec<String>", "Option<Vec<u8>>",
    "std::ffi::OsString", "&'static str", "(u8, u8)", "[u8; 4]", "Option<Option<Option<u8>>>", "::std::string::String",
    "Vec<Vec<u8>>", "fn(u8) -> u8", "Box<dyn Fn()>", "<u8 as Foo>::Bar", "Option", "Vec<>", "Option<'a>", "Option<3>", "!", "_",
    "std::option::Option<u8>", "m!(x)", "(bool)",
];
const ATTRS: &[&str] = &[
    "long", "short", "long = \"name\"", "short = 'n'", "long = \"\"", "long = \"--x\"", "long = \"a=b\"", "short = '-'", "short = '='",
    "short = 'é'", "long = 3", "short = \"s\"", "alias = \"al\"", "aliases = [\"x\", \"y\",]", "aliases = []", "alias = [\"z\"]",
    "short_alias = 'q'", "short_aliases = ['u', 'v']", "value_name = \"V\"", "value_name = \"a\\nb\"", "value_name = 3",
    "require_equals = true", "require_equals = false", "require_equals", "global = true", "allow_hyphen_values = true",
    "allow_negative_numbers = true", "trailing_var_arg = true", "last = true", "default_value = \"d\"", "default_value_t",
    "default_value_t = 1 + 1", "default_value_t = Vec::new()", "default_values_t = [1, 2]", "default_value_t = |x| {", "use_value_delimiter = true",
    "use_value_delimiter = false", "value_delimiter = ';'", "value_delimiter = 'é'", "value_enum", "value_enum, value_enum",
    "ignore_case = true", "help = \"h\"", "long_help = \"h\"", "hide = true", "required = true", "required = false", "exclusive = true",
    "requires = \"a\"", "requires = \"b\"", "requires = \"missing\"", "requires = \"not an ident\"", "requires = \"r#type\"", "requires = \"\"",
    "conflicts_with = \"c\"", "conflicts_with_all = [\"a\", \"b\"]", "conflicts_with_all = []", "bogus", "bogus = 1", "bogus(x)", "=", ",", "long,",
    "a::b = 2", "long = \"\\u{e9}t\\u{e9}\"", "action = ArgAction::Count", "value_parser = f", "long long", "12", "\"str\"", "env", "last = true, last = true",
    "requires = \"verbose\"", "conflicts_with = \"verbose\"",
];
const CMD_ATTRS: &[&str] = &[
    "subcommand", "flatten", "subcommand, flatten", "other", "", "3", "subcommand()", "flatten = true",
];
const TOP_ATTRS: &[&str] = &[
    "name = \"n\"", "version", "version = \"1\"", "version = env!(\"X\")", "long_about", "long_about = \"about\"", "long_about = {", "after_long_help = \"x\"",
    "after_long_help", "author", "author = \"me\"", "about = \"x\"", "after_help = \"x\"", "term_width = 3", "max_term_width = 1", "bogus", "name = 3", "name = \"n\", name = \"m\"",
    "", "=", "rename_all = \"x\"",
];
const VALUE_ATTRS: &[&str] = &[
    "rename_all = \"kebab-case\"", "rename_all = \"camelCase\"", "rename_all = \"PascalCase\"", "rename_all = \"SCREAMING_SNAKE_CASE\"",
    "rename_all = \"snake_case\"", "rename_all = \"lower\"", "rename_all = \"UPPER\"", "rename_all = \"verbatim\"", "rename_all = \"bad\"",
    "rename_all", "name = \"n\"", "name = \"\"", "name = \"a\\u{0}b\"", "name = 1", "skip", "help = \"x\"", "alias = \"x\"", "", "=",
];
const DOCS: &[&str] = &["/// Doc text.\n", "///\n", "/** block */\n", "#[doc = \"x\"]\n", "#[doc = concat!(\"a\")]\n", "#[doc(hidden)]\n", "/// First.\n///\n/// Second {brace}.\n", "/// \"quote\" \\\n"];
const GENERICS: &[&str] = &["<T>", "<'a>", "<const N: usize>", "<T: Copy = u8>", "<>"];

fn attrs(rng: &mut Rng, which: &str, pool: &[&str], max: usize) -> String {
    let n = rng.below(max + 1);
    if n == 0 {
        return String::new();
    }
    let v: Vec<&str> = (0..n).map(|_| *rng.pick(pool)).collect();
    if rng.pct(15) {
        v.iter().map(|a| format!("#[{which}({a})] ")).collect()
    } else if rng.pct(3) {
        format!("#[{which}] ")
    } else if rng.pct(3) {
        format!("#[{which} = \"x\"] ")
    } else {
        format!("#[{which}({})] ", v.join(", "))
    }
}

fn field_attrs(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.pct(25) {
        s += rng.pick(DOCS);
    }
    if rng.pct(12) {
        s += &format!("#[command({})] ", rng.pick(CMD_ATTRS));
    } else if rng.pct(85) {
        // Mostly well-formed, so that later stages are reached too.
        if rng.pct(60) {
            let mut v = vec![];
            if rng.pct(60) {
                v.push(*rng.pick(&["long", "short", "long, short", "long = \"dup\"", "short = 'd'", "long = \"zz\"", "short = 'z'"]));
            }
            for _ in 0..rng.below(3) {
                v.push(rng.pick(ATTRS));
            }
            s += &format!("#[arg({})] ", v.join(", "));
        } else {
            s += &attrs(rng, "arg", ATTRS, 4);
        }
    }
    if rng.pct(4) {
        s += "#[cfg(test)] ";
    }
    s
}

fn fields(rng: &mut Rng, many: bool) -> String {
    let n = if many { rng.range(250, 258) } else { [0, 1, 2, 3, 4, 6, 9][rng.below(7)] };
    let mut s = String::new();
    for k in 0..n {
        let id = if many || rng.pct(40) { format!("f{k}") } else { rng.pick(IDENTS).to_string() };
        let at = if many && rng.pct(90) { String::from("#[arg(long)] ") } else { field_attrs(rng) };
        let ty = if rng.pct(75) { TYPES[rng.below(9)] } else { rng.pick(TYPES) };
        s += &format!("{at}{}{id}: {ty}, ", if rng.pct(30) { "pub " } else { "" });
    }
    s
}

/// A random definition, often malformed.
pub fn random(rng: &mut Rng) -> Def {
    let kind = rng.pick(&KINDS).to_string();
    let name = rng.pick(&["Cli", "Foo", "r#Type", "A", "Naïve", "Sub"]).to_string();
    let generics = if rng.pct(6) { *rng.pick(GENERICS) } else { "" };
    let shape = if rng.pct(94) { usize::from(kind == "Subcommand" || kind == "ValueEnum") } else { rng.below(5) };
    let mut text = String::new();
    if rng.pct(20) {
        text += rng.pick(DOCS);
    }
    if kind == "ValueEnum" {
        text += &attrs(rng, "value", VALUE_ATTRS, 2);
    } else if rng.pct(40) {
        text += &attrs(rng, "command", TOP_ATTRS, 2);
    }
    if rng.pct(3) {
        text += "#[arg(long)] ";
    }
    match shape {
        0 => {
            let many = rng.pct(2);
            text += &format!("pub struct {name}{generics} {{ {} }}", fields(rng, many));
        }
        1 => {
            let mut s = String::new();
            for k in 0..[0, 1, 2, 3, 5, 9, 14][rng.below(7)] {
                if rng.pct(20) {
                    s += rng.pick(DOCS);
                }
                let v = if rng.pct(50) {
                    format!("V{k}")
                } else {
                    rng.pick(&["Add", "AddAll", "Add_All", "r#Try", "Remove", "É", "A1", "XMLHttp", "add", "Zeta", "Help"]).to_string()
                };
                if kind == "ValueEnum" {
                    s += &attrs(rng, "value", VALUE_ATTRS, 2);
                    s += &v;
                    s += match rng.below(20) {
                        0 => "(u8)",
                        1 => " {}",
                        2 => " = 3",
                        _ => "",
                    };
                } else {
                    if rng.pct(25) {
                        s += &attrs(rng, "command", TOP_ATTRS, 2);
                    }
                    s += &v;
                    match rng.below(8) {
                        0 => s += "(u8, u8)",
                        1 => s += "()",
                        2 | 3 => s += "(Inner)",
                        4 | 5 => s += &format!(" {{ {} }}", fields(rng, false)),
                        _ => {}
                    }
                }
                s += ", ";
            }
            text += &format!("enum {name}{generics} {{ {s} }}");
        }
        2 => text += &format!("struct {name}{generics};"),
        3 => text += &format!("struct {name}{generics}(u8, #[arg(long)] u8);"),
        _ => text += &format!("union {name}{generics} {{ a: u8, b: u8 }}"),
    }
    if rng.pct(2) {
        text = text.replacen('{', "where u8: Copy {", 1);
    }
    Def { kind, text, expect: Expect::Any }
}

/// A name close to, but mostly not, `n`.
fn near(n: &str, rng: &mut Rng) -> String {
    let mut c: Vec<char> = n.chars().collect();
    if c.is_empty() {
        return "x".into();
    }
    let k = rng.below(c.len());
    match rng.below(9) {
        0 => c.truncate(k.max(1)),
        1 => c = c[..c.len().saturating_sub(1).max(1)].to_vec(),
        2 => c.insert(k, 'x'),
        3 => c.push('s'),
        4 if c.len() > 1 => _ = c.remove(k),
        5 if c.len() > 1 => c.swap(k, (k + 1) % n.chars().count()),
        6 => return n.to_uppercase(),
        7 => return n.replace('_', ""),
        8 => return n.split('_').next().unwrap_or(n).to_string(),
        _ => c[k] = 'z',
    }
    c.into_iter().collect()
}

/// A definition with many related names which refer to each other, in part wrongly.
pub fn family(rng: &mut Rng) -> Def {
    let stem = *rng.pick(&["file", "in", "log_level", "o", "max", "no_color"]);
    let ends = ["", "_one", "_two", "_three", "_name", "_names", "_size", "2", "_n", "_path", "_paths", "s"];
    let kind = rng.pick(&KINDS).to_string();
    let camel = |s: &str| -> String {
        s.split('_').map(|w| w.chars().take(1).flat_map(char::to_uppercase).chain(w.chars().skip(1)).collect::<String>()).collect()
    };
    let mut names: Vec<String> = ends.iter().map(|e| format!("{stem}{e}")).collect();
    rng.shuffle(&mut names);
    names.truncate(rng.range(2, 10));
    for _ in 0..rng.below(3) {
        let n = near(&rng.pick(&names).clone(), rng);
        names.push(n);
    }
    if rng.pct(80) {
        names.sort();
        names.dedup();
        rng.shuffle(&mut names);
    }
    let wrong = rng.pct(60);
    if kind == "ValueEnum" || (kind == "Subcommand" && rng.pct(70)) {
        let which = if kind == "ValueEnum" { "value" } else { "command" };
        let mut s = String::new();
        if rng.pct(30) {
            s += &format!("#[{which}({})] ", rng.pick(VALUE_ATTRS));
        }
        s += "enum Family { ";
        for n in &names {
            if wrong && rng.pct(30) {
                let o = rng.pick(&names).clone();
                let o = if rng.pct(50) { near(&o, rng) } else { o };
                s += &format!("#[{which}(name = {:?})] ", o.replace('_', "-"));
            }
            s += &camel(n);
            s += ", ";
        }
        return Def { kind, text: s + "}", expect: Expect::Any };
    }
    let mut s = String::new();
    for n in &names {
        if rng.pct(15) {
            s += rng.pick(DOCS);
        }
        let mut at = Vec::new();
        if rng.pct(85) {
            at.push("long".to_string());
        }
        for _ in 0..rng.below(4) {
            let o = rng.pick(&names).clone();
            let o = if wrong && rng.pct(50) { near(&o, rng) } else { o };
            at.push(match rng.below(7) {
                0 | 1 => format!("requires = {o:?}"),
                2 | 3 => format!("conflicts_with = {o:?}"),
                4 => format!("conflicts_with_all = [{o:?}, {:?}]", near(&o, rng)),
                5 => format!("alias = {:?}", o.replace('_', "-")),
                _ => format!("aliases = [{:?}, {:?}]", o, near(&o, rng)),
            });
        }
        if rng.pct(10) {
            at.push("short".to_string());
        }
        if !at.is_empty() {
            s += &format!("#[arg({})] ", at.join(", "));
        }
        s += &format!("{n}: {}, ", TYPES[rng.below(9)]);
    }
    let text = if kind == "Subcommand" { format!("enum Family {{ One {{ {s} }}, Two {{ {s} }} }}") } else { format!("struct Family {{ {s} }}") };
    Def { kind, text, expect: Expect::Any }
}

/// The same definition with one name or literal replaced by one close to it.
fn misspell(d: &Def, rng: &mut Rng) -> Def {
    let Ok(mut ts) = d.text.parse::<TokenStream>() else { return d.clone() };
    let ps: Vec<_> = positions(&ts)
        .into_iter()
        .filter(|p| match get(&ts, p) {
            TokenTree::Literal(l) => l.to_string().starts_with('"') && l.to_string().len() > 2,
            TokenTree::Ident(i) => !["struct", "enum", "union", "pub", "where"].contains(&i.to_string().as_str()),
            _ => false,
        })
        .collect();
    if ps.is_empty() {
        return d.clone();
    }
    for _ in 0..rng.range(1, 3) {
        let p = rng.pick(&ps).clone();
        let q = get(&ts, rng.pick(&ps)).to_string();
        let bare = |s: &str| s.trim_matches('"').trim_start_matches("r#").to_string();
        let mut n = match get(&ts, &p) {
            t if rng.pct(50) => bare(&t.to_string()),
            _ => bare(&q),
        };
        if rng.pct(75) {
            n = near(&n, rng);
        }
        ts = edit(ts, &p, &mut |t| {
            let text = if matches!(t, TokenTree::Literal(_)) { format!("\"{n}\"") } else { n.clone() };
            match text.parse::<TokenStream>() {
                // Positions stay valid.
                Ok(v) if v.clone().into_iter().count() == 1 => v.into_iter().collect(),
                _ => vec![t],
            }
        });
    }
    Def { kind: d.kind.clone(), text: ts.to_string(), expect: Expect::Any }
}

fn flat(ts: &TokenStream, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, t) in ts.clone().into_iter().enumerate() {
        path.push(i);
        out.push(path.clone());
        if let TokenTree::Group(g) = &t {
            flat(&g.stream(), path, out);
        }
        path.pop();
    }
}

/// Positions of all token trees.
pub fn positions(ts: &TokenStream) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    flat(ts, &mut vec![], &mut out);
    out
}

pub fn edit(ts: TokenStream, path: &[usize], f: &mut dyn FnMut(TokenTree) -> Vec<TokenTree>) -> TokenStream {
    ts.into_iter()
        .enumerate()
        .flat_map(|(i, t)| {
            if i != path[0] {
                return vec![t];
            }
            if path.len() == 1 {
                return f(t);
            }
            match t {
                TokenTree::Group(g) => {
                    vec![Group::new(g.delimiter(), edit(g.stream(), &path[1..], f)).into()]
                }
                t => vec![t],
            }
        })
        .collect()
}

fn get(ts: &TokenStream, path: &[usize]) -> TokenTree {
    let t = ts.clone().into_iter().nth(path[0]).unwrap();
    match (&t, path.len()) {
        (TokenTree::Group(g), 2..) => get(&g.stream(), &path[1..]),
        _ => t,
    }
}

/// Token-level damage.
pub fn damage(d: &Def, rng: &mut Rng) -> Def {
    if rng.pct(35) {
        return misspell(d, rng);
    }
    let Ok(mut ts) = d.text.parse::<TokenStream>() else { return d.clone() };
    for _ in 0..rng.range(1, 3) {
        let ps = positions(&ts);
        if ps.is_empty() {
            break;
        }
        let p = rng.pick(&ps).clone();
        let other = get(&ts, rng.pick(&ps));
        let junk: Vec<TokenTree> = rng
            .pick(&["bool", "\"\"", "'x'", "=", ",", "r#type", "true", "false", "3", "()", "Option<Option<u8>>", "\"a b\"", "-", "#", "''", "\"x\\0\""])
            .parse::<TokenStream>()
            .map(|t| t.into_iter().collect())
            .unwrap_or_default();
        let op = rng.below(6);
        ts = edit(ts, &p, &mut |t| match op {
            0 => vec![],
            1 => vec![t.clone(), t],
            2 => vec![other.clone()],
            3 => junk.clone(),
            4 => vec![t, other.clone()],
            _ => match t {
                TokenTree::Group(g) => {
                    let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][op % 3];
                    vec![Group::new(d, g.stream()).into()]
                }
                t => vec![t, junk.first().cloned().unwrap_or(other.clone())],
            },
        });
    }
    Def { kind: d.kind.clone(), text: ts.to_string(), expect: Expect::Any }
}

/// Damage that always makes a valid definition invalid.
pub fn spoil(d: &Def, rng: &mut Rng) -> Option<Def> {
    let named = d.kind == "Parser" || d.kind == "Args";
    let (mut head, mut body) = ("", "");
    match rng.below(10) {
        7 if named => body = "#[arg(long, requires = \"__nope\")] __q: bool,",
        8 if named => body = "#[arg(long, conflicts_with_all = [\"__q\", \"__nope\"])] __q: bool,",
        9 if named => body = "#[arg(last = true)] __l1: Vec<u8>, #[arg(last = true)] __l2: Vec<u8>,",
        7.. if d.kind == "ValueEnum" => body = "#[value(name = \"dup\")] __A, #[value(name = \"dup\")] __B,",
        7.. if d.kind == "Subcommand" => body = "Bogus { #[arg(long, requires = \"nope\")] x: bool },",
        0 if d.kind != "ValueEnum" => head = "<T>",
        1 if named => body = "#[arg(bogus)] __bogus: bool,",
        1 if d.kind == "ValueEnum" => body = "#[value(bogus)] Bogus,",
        2 if named => body = "#[arg(long = \"sdup\")] __d1: bool, #[arg(long = \"sdup\")] __d2: bool,",
        3 if named => body = "#[command(subcommand)] __s1: S, #[command(subcommand)] __s2: S,",
        3 if d.kind == "ValueEnum" => body = "Bogus(u8),",
        4 if d.kind == "Subcommand" => body = "Bogus(u8, u8),",
        5 if named => body = "#[arg(long, required = false)] __r: bool,",
        5 if d.kind == "Subcommand" => body = "Bogus { #[arg(long, bogus)] x: bool },",
        6 => {
            let ts: Vec<String> = d.text.parse::<TokenStream>().ok()?.into_iter().map(|t| t.to_string()).collect();
            let has = |k: &str| ts.iter().any(|t| t == k);
            let kind = match (has("struct"), has("enum")) {
                (true, false) => ["Subcommand", "ValueEnum"],
                (false, true) => ["Parser", "Args"],
                _ => return None,
            };
            return Some(Def { kind: rng.pick(&kind).to_string(), text: d.text.clone(), expect: Expect::Bad(vec![]) });
        }
        _ => return None,
    }
    let mut v: Vec<TokenTree> = d.text.parse::<TokenStream>().ok()?.into_iter().collect();
    let Some(TokenTree::Group(g)) = v.pop() else { return None };
    if g.delimiter() != Delimiter::Brace {
        return None;
    }
    v.extend(head.parse::<TokenStream>().unwrap());
    let mut b: TokenStream = body.parse().unwrap();
    b.extend(g.stream());
    v.push(Group::new(Delimiter::Brace, b).into());
    let ts: TokenStream = v.into_iter().collect();
    Some(Def { kind: d.kind.clone(), text: ts.to_string(), expect: Expect::Bad(vec![]) })
}
