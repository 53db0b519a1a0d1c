//! Contradictions injected into sound definitions, and additions that keep them sound.

use crate::defs::{edit, positions};
use crate::expand::{Def, Expect};
use clispec::rng::Rng;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};

fn toks(s: &str) -> Vec<TokenTree> {
    s.parse::<TokenStream>().unwrap_or_else(|e| panic!("SIM: {e}: {s}")).into_iter().collect()
}

/// One field or variant with its attributes.
fn segments(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v = vec![vec![]];
    for t in ts {
        if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
            v.push(vec![]);
        } else {
            v.last_mut().unwrap().push(t);
        }
    }
    v.retain(|s| !s.is_empty());
    v
}

fn join(v: Vec<Vec<TokenTree>>) -> TokenStream {
    v.into_iter().flat_map(|s| s.into_iter().chain(toks(","))).collect()
}

/// Attribute groups of a segment, and its name.
fn attrs(seg: &[TokenTree]) -> (Vec<String>, String) {
    let mut at = vec![];
    let mut name = String::new();
    let mut k = 0;
    while k < seg.len() {
        match (&seg[k], seg.get(k + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == '#' => {
                at.push(g.stream().to_string());
                k += 1;
            }
            (TokenTree::Ident(i), _) if i != "pub" && name.is_empty() => name = i.to_string(),
            _ => {}
        }
        k += 1;
    }
    (at, name)
}

/// Field lists of the definition: the path of the group.
fn lists(d: &Def, ts: &TokenStream) -> Vec<Vec<usize>> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let body = v.len() - 1;
    if d.kind == "Parser" || d.kind == "Args" {
        return vec![vec![body]];
    }
    let TokenTree::Group(g) = &v[body] else { return vec![] };
    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
    (0..inner.len())
        .filter(|&k| matches!(&inner[k], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace))
        .map(|k| vec![body, k])
        .collect()
}

fn stream(ts: &TokenStream, path: &[usize]) -> TokenStream {
    let mut ts = ts.clone();
    for &k in path {
        let Some(TokenTree::Group(g)) = ts.into_iter().nth(k) else { return TokenStream::new() };
        ts = g.stream();
    }
    ts
}

struct Change {
    /// Where to put these, in this order.
    chunks: Vec<String>,
    expect: Expect,
}

const NAMED: &[&str] = &["bool", "String", "Option<u8>", "Vec<String>", "Option<Vec<u8>>", "u32"];
const VALUED: &[&str] = &["String", "Option<u8>", "Vec<String>", "Option<Vec<u8>>", "u32"];
const LISTS: &[&str] = &["Vec<String>", "Option<Vec<u8>>", "Vec<std::ffi::OsString>"];
const SINGLE: &[&str] = &["String", "Option<u8>", "u32", "Option<String>"];
const BAD_LONG: &[&str] = &["\"\"", "\"-x\"", "\"--name\"", "\"a=b\"", "\"=\"", "\"a\\nb\"", "\"\\u{7f}\"", "\"zq\\0\"", "\"zq=\""];
const BAD_SHORT: &[&str] = &["'-'", "'='", "'\\n'", "'\\0'", "'\\u{7f}'", "'\\t'"];

/// Attributes that go with any named field.
fn extra(r: &mut Rng) -> String {
    let mut v = vec![];
    if r.pct(30) {
        v.push("hide = true");
    }
    if r.pct(25) {
        v.push("value_name = \"ZQV\"");
    }
    if r.pct(20) {
        v.push("global = true");
    }
    if r.pct(15) {
        v.push("alias = \"zq-other\"");
    }
    v.iter().map(|s| format!(", {s}")).collect()
}

fn doc(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", "/// Doc.\n ", "#[doc = \"Doc.\"] ", "/** Doc. */ "])
}

/// A named field called `id` with these attributes.
fn field(r: &mut Rng, id: &str, at: &str, ty: &str) -> String {
    let first = r.pct(50);
    let d = doc(r);
    let p = if r.pct(40) { "pub " } else { "" };
    // One attribute or several make no difference.
    let at = if r.pct(20) && !at.contains(['[', '"', '\'']) && !at.starts_with(',') { at.replace(", ", ")] #[arg(") } else { at.to_string() };
    if first { format!("{d}#[arg({at})] {p}{id}: {ty}") } else { format!("#[arg({at})] {d}{p}{id}: {ty}") }
}

/// `existing` names taken in the list: longs and shorts as written, and fields that can be referred to, and other ones.
struct Taken {
    longs: Vec<String>,
    shorts: Vec<String>,
    direct: Vec<String>,
    other: Vec<String>,
    flatten: bool,
    exclusive: bool,
    positional: bool,
}

fn taken(list: &TokenStream) -> Taken {
    let mut t = Taken { longs: vec![], shorts: vec![], direct: vec![], other: vec![], flatten: false, exclusive: false, positional: false };
    for s in segments(list.clone()) {
        let (at, name) = attrs(&s);
        if at.iter().any(|a| a.replace(' ', "").starts_with("command(")) {
            t.flatten |= at.iter().any(|a| a.contains("flatten"));
            t.other.push(name);
            continue;
        }
        t.direct.push(name);
        t.positional |= !at.iter().any(|a| {
            a.replace(' ', "").starts_with("arg(") && ["long", "short"].iter().any(|k| a.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == *k))
        });
        for a in &at {
            t.exclusive |= a.contains("exclusive");
            let v: Vec<TokenTree> = a.parse::<TokenStream>().unwrap().into_iter().collect();
            let Some(TokenTree::Group(g)) = v.get(1) else { continue };
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            for w in v.windows(3) {
                if let [TokenTree::Ident(i), TokenTree::Punct(_), TokenTree::Literal(l)] = w {
                    match i.to_string().as_str() {
                        "long" | "alias" => t.longs.push(l.to_string()),
                        "short" | "short_alias" => t.shorts.push(l.to_string()),
                        _ => {}
                    }
                }
            }
        }
    }
    t
}

/// A diagnostic anywhere will do.
fn anywhere(chunks: Vec<String>) -> Change {
    Change { chunks, expect: Expect::Bad(vec![]) }
}
/// The places are filled in later.
fn at_these(chunks: Vec<String>) -> Change {
    Change { chunks, expect: Expect::Bad(vec![(0, 0)]) }
}

macro_rules! f {
    ($r:ident, $id:expr, $at:expr, $tys:expr) => {{
        let (at, ty) = ($at.to_string(), *$r.pick($tys));
        field($r, $id.as_ref(), &at, ty)
    }};
}

fn bad_fields(r: &mut Rng, t: &Taken) -> Change {
    let e = extra(r);
    // What goes for any argument goes for a positional one as well.
    let free = !t.positional && r.pct(40);
    let lead = if free { "" } else { *r.pick(&["long, ", "long, ", "short = 'ж', "]) };
    let any: &[&str] = if free { VALUED } else { NAMED };
    let e0 = if free { String::new() } else { e.clone() };
    let chunks = match r.below(49) {
        // What only a named argument can be.
        46 => vec![f!(r, "zq1", r.pick(&["hide = true", "value_name = \"V\"", "default_value_t = true", "required = true"]).to_string(), &["bool"])],
        47 => vec![f!(r, "zq1", r.pick(&["alias = \"zq\"", "short_alias = 'ж'", "aliases = [\"zq\", \"zq-x\"]", "hide = true, short_aliases = ['ж', 'ю']"]).to_string(), VALUED)],
        // Names.
        0 | 1 => {
            let n = *r.pick(&["zq", "zq-a", "é", "a b", "x"]);
            let n = if t.longs.iter().any(|l| l.contains(n)) { "zqq" } else { n };
            let one = match r.below(3) {
                0 => format!("long = \"{n}\""),
                1 => format!("long = \"zq-one\", alias = \"{n}\""),
                _ => format!("short = 'ж', aliases = [\"zq-x\", \"{n}\"]"),
            };
            let two = match r.below(3) {
                0 => format!("long = \"{n}\""),
                1 => format!("long = \"zq-two\", alias = \"{n}\""),
                _ => format!("long, aliases = [\"{n}\", \"zq-y\"]"),
            };
            vec![f!(r, "zq1", one, NAMED), f!(r, "zq2", two, NAMED)]
        }
        2 if !t.longs.is_empty() => {
            let l = r.pick(&t.longs).clone();
            let at = if r.pct(50) { format!("long = {l}{e}") } else { format!("long, alias = {l}") };
            vec![f!(r, "zq1", at, NAMED)]
        }
        3 if !t.shorts.is_empty() => {
            let l = r.pick(&t.shorts).clone();
            let at = if r.pct(50) { format!("short = {l}{e}") } else { format!("long, short_alias = {l}") };
            vec![f!(r, "zq1", at, NAMED)]
        }
        4 if r.pct(50) => vec![f!(r, "zq_one", "long", NAMED), f!(r, "zq2", r.pick(&["long = \"zq-one\"", "long, alias = \"zq-one\"", "short = 'ж', aliases = [\"zq-a\", \"zq-one\"]"]), NAMED)],
        4 => vec![f!(r, "zq1", format!("short{e}"), NAMED), f!(r, "zq2", r.pick(&["short", "short = 'z'", "long, short_alias = 'z'", "long, short_aliases = ['ж', 'z']"]), NAMED)],
        5 => vec![f!(r, "zq__one", "long", NAMED), f!(r, "zqOne", format!("long{e}"), NAMED)],
        6 => {
            let a = *r.pick(&["short = 'ж'", "long, short = 'ж'", "long, short_alias = 'ж'", "short = 'ю', short_aliases = ['я', 'ж']"]);
            let b = *r.pick(&["short = 'ж'", "long, short_alias = 'ж'", "long, short_aliases = ['ж']"]);
            vec![f!(r, "zq1", a, NAMED), f!(r, "zq2", b, NAMED)]
        }
        7 => {
            let at = *r.pick(&["long = \"zq\", alias = \"zq\"", "long, aliases = [\"zqa\", \"zqa\"]", "short = 'ж', short_alias = 'ж'", "long, alias = \"zq1\""]);
            vec![f!(r, "zq1", at, NAMED)]
        }
        8 | 9 => {
            let l = *r.pick(BAD_LONG);
            let at = match r.below(3) {
                0 => format!("long = {l}"),
                1 => format!("long, alias = {l}"),
                _ => format!("short = 'ж', aliases = [\"zq-x\", {l}]"),
            };
            vec![f!(r, "zq1", at, NAMED)]
        }
        10 | 11 => {
            let l = *r.pick(BAD_SHORT);
            let at = match r.below(3) {
                0 => format!("short = {l}"),
                1 => format!("long, short_alias = {l}{e}"),
                _ => format!("long, short_aliases = ['ж', {l}]{e}"),
            };
            vec![f!(r, "zq1", at, NAMED)]
        }
        12 => vec![f!(r, "zq1", format!("{lead}value_name = {}", r.pick(&["\"a\\nb\"", "\"\\0\"", "\"x\\u{7f}\"", "\"é\\r\"", "\"\\t\"", "\"A\\x1b[1m\""])), any)],
        13 => vec![f!(r, "__", "long", NAMED)],
        // Attributes.
        14 | 15 => {
            let b = *r.pick(&["bogus", "bogus = 1", "env = \"X\"", "num_args = 1", "Long", "longs", "visible_alias = \"x\"", "default = \"x\"", "a::long", "r#final"]);
            let at = match r.below(3) {
                0 => format!("{lead}{b}"),
                1 => format!("{lead}hide = true{e0}, {b}").replace("hide = true, hide = true", "hide = true"),
                _ => b.to_string(),
            };
            vec![f!(r, "zq1", at, NAMED)]
        }
        16 | 17 => {
            let at = *r.pick(&[
                "long, long", "long = \"zq\", long", "long, long = \"zq\"", "short = 'ж', short", "long, value_name = \"A\", value_name = \"A\"", "long, hide = true, hide = true",
                "long, global = true, global = true", "long, default_value = \"1\", default_value = \"1\"", "long, exclusive = true, exclusive = true",
                "long, value_enum, value_enum", "long, help = \"a\", help = \"b\"", "long, required = true, hide = true, required = true",
            ]);
            vec![f!(r, "zq1", at, &["Option<u8>", "Option<String>"])]
        }
        18 => {
            let b = *r.pick(&["hide", "required", "global", "require_equals", "exclusive", "ignore_case", "last", "trailing_var_arg", "allow_hyphen_values", "use_value_delimiter"]);
            vec![f!(r, "zq1", format!("{lead}{b} = false"), VALUED)]
        }
        19 => vec![f!(r, "zq1", r.pick(&["long, default_value = \"1\", default_value_t = 1", "long, default_value_t = 1, default_value = \"1\"", "long, default_value_t, default_value = \"1\""]).to_string(), &["u8", "Option<u8>"])],
        20 if free => vec![f!(r, "zq1", "required = true, default_value = \"1\"", &["u8", "Option<u8>", "Vec<u8>"])],
        20 => vec![f!(r, "zq1", format!("long, required = true, {}{e}", r.pick(&["default_value = \"1\"", "default_value_t = 1", "default_value_t"])), &["u8", "Option<u8>"])],
        21 => vec![f!(r, "zq1", format!("{lead}{}{e0}", r.pick(&["value_delimiter = ';'", "use_value_delimiter = true"])), if free { SINGLE } else { &["bool", "String", "Option<u8>", "u32"] })],
        22 => vec![f!(r, "zq1", format!("long, allow_hyphen_values = true, allow_negative_numbers = true{e}"), VALUED)],
        23 => vec![f!(r, "zq1", format!("long, {}{e}", r.pick(&["allow_hyphen_values = true", "allow_negative_numbers = true"])), &["bool"])],
        24 => vec![f!(r, "zq1", format!("long, require_equals = true, {}{e}", r.pick(&["allow_hyphen_values = true", "allow_negative_numbers = true"])), VALUED)],
        25 => vec![f!(r, "zq1", format!("long{e}"), &["Option<Option<u8>>", "Option<Option<String>>"])],
        26 => vec![f!(r, "zq1", format!("{}, {}{e}", r.pick(&["long", "short = 'ж'"]), r.pick(&["last = true", "trailing_var_arg = true"])), VALUED)],
        27 => vec![f!(r, "zq1", r.pick(&["require_equals = true", "global = true", "hide = true, global = true"]).to_string(), LISTS)],
        28 => vec![f!(r, "zq1", r.pick(&["allow_hyphen_values = true", "allow_negative_numbers = true"]).to_string(), LISTS)],
        29 => vec![f!(r, "zq1", "last = true", SINGLE)],
        30 => vec![f!(r, "zq1", "last = true", LISTS), f!(r, "zq2", "last = true", LISTS)],
        31 => vec![f!(r, "zq1", "hide = true", LISTS), f!(r, "zq2", "value_name = \"V\"", LISTS)],
        32 => vec![f!(r, "zq1", "hide = true", LISTS), f!(r, "zq2", "hide = true", SINGLE)],
        33 => vec!["#[command(subcommand)] zq1: S".into(), "#[command(subcommand)] zq2: Option<S>".into()],
        34 | 35 => {
            let mut n = match r.below(4) {
                0 => "zq_nope".to_string(),
                1 if !t.direct.is_empty() => format!("{}x", r.pick(&t.direct).trim_start_matches("r#")),
                2 if !t.other.is_empty() => r.pick(&t.other).clone(),
                3 if !t.direct.is_empty() => {
                    let d = r.pick(&t.direct).trim_start_matches("r#").to_string();
                    d.chars().take(d.chars().count().saturating_sub(1).max(1)).collect()
                }
                _ => "Zq1".into(),
            };
            if t.direct.iter().any(|d| *d == n || d.trim_start_matches("r#") == n) || n.starts_with(|c: char| c.is_ascii_digit()) {
                n = "zq_nope".into();
            }
            let at = match r.below(4) {
                0 => format!("requires = \"{n}\""),
                1 => format!("conflicts_with = \"{n}\""),
                2 => format!("conflicts_with_all = [\"zq2\", \"{n}\"]"),
                _ => format!("requires = \"zq2\", requires = \"{n}\""),
            };
            vec![f!(r, "zq1", format!("{lead}{at}{e0}"), any), f!(r, "zq2", "long", NAMED)]
        }
        36 => vec![f!(r, "zq1", format!("{lead}requires = {}", r.pick(&["\"not an ident\"", "\"\"", "\"a-b\"", "zq2", "3"])), any)],
        37 => vec![format!("{}#[arg(long)] #[command({})] zq1: G", doc(r), r.pick(&["flatten", "subcommand"]))],
        38 => vec!["#[command(flatten)] #[command(flatten)] zq1: G".into()],
        39 => vec![format!("#[command({})] zq1: G", r.pick(&["bogus", "flattened", "flatten, subcommand", "", "3"]))],
        // (Said of the first such field, which may be another one.)
        40 => return anywhere(vec![f!(r, "zq1", format!("{lead}exclusive = true{e0}"), any), "#[command(flatten)] zq2: G".into()]),
        41 if t.flatten => return anywhere(vec![f!(r, "zq1", format!("{lead}exclusive = true{e0}"), any)]),
        42 => vec![f!(r, "zq1", format!("{lead}{}", r.pick(&["default_value = 3", "default_value", "value_name = 'c'", "value_delimiter = \";\"", "hide", "hide = 1", "global = \"true\"", "alias = 'x'", "short_alias = \"x\"", "aliases = []x", "value_enum = true"])), NAMED)],
        43 => vec![f!(r, "zq1", r.pick(&["long = 'x'", "short = \"x\"", "long = 3", "short = 1", "long = zq", "long long", "= 3", ", long"]).to_string(), NAMED)],
        44 if r.pct(50) => vec![f!(r, "zq1", "long", NAMED).replace("#[arg", r.pick(&["#[doc = concat!(\"a\", \"b\")] #[arg", "#[doc = env!(\"X\")] #[arg", "#[doc = 3] #[arg"]))],
        44 => vec![format!("{}#[arg = \"long\"] zq1: bool", doc(r))],
        _ => vec![f!(r, "zq1", format!("long, {}", r.pick(&["conflicts_with_all = \"a b\"", "conflicts_with_all = [\"zq1\", \"1\"]", "conflicts_with = [\"zq1\" \"zq1\"]"])), NAMED)],
    };
    at_these(chunks)
}

fn good_fields(r: &mut Rng, t: &Taken) -> Change {
    let chunks = match r.below(19) {
        // A long and a short name of the same letter are different names.
        0 => vec![f!(r, "zq1", "long = \"ж\"", NAMED), f!(r, "zq2", "short = 'ж'", NAMED)],
        1 => vec![f!(r, "zq1", "long = \"zq\"", NAMED), f!(r, "zq2", "long = \"zq-\"", NAMED), f!(r, "zq3", "long = \"ZQ\"", NAMED)],
        2 => vec![f!(r, "zq1", "long = \"zq a.b:c/d\"", NAMED), f!(r, "zq2", "short = '\"'", NAMED)],
        3 => vec![f!(r, "zq1", "long, value_name = \"zq2 <x>\"", NAMED)],
        4 => vec![f!(r, "zq1", "long, requires = \"zq2\"", NAMED), f!(r, "zq2", "long, conflicts_with = \"zq3\"", NAMED), f!(r, "zq3", "long, conflicts_with_all = [\"zq1\", \"zq2\",]", NAMED)],
        5 => vec![f!(r, "zq1", "long, requires = \"r#type\"", NAMED), f!(r, "r#type", "long = \"zq-type\"", NAMED)],
        6 => vec![f!(r, "zq1", "long, require_equals = true", &["Option<Option<u8>>", "Option<Option<String>>"])],
        7 => vec![f!(r, "zq1", "long, default_value_t = 1 + 1", &["u8", "Option<u8>"]), f!(r, "zq2", "long, default_value = \"\"", &["String", "Option<String>"])],
        8 => vec![f!(r, "zq1", "long, value_delimiter = 'é'", LISTS), f!(r, "zq2", "long, use_value_delimiter = true", LISTS)],
        9 => vec![f!(r, "zq1", "long, allow_hyphen_values = true", VALUED), f!(r, "zq2", "long, allow_negative_numbers = true", VALUED)],
        10 => vec![f!(r, "zq1", "long, value_enum", VALUED), f!(r, "zq2", "long, help = \"x\", long_help = \"y\"", VALUED)],
        11 => vec![f!(r, "zq1", "long, required = true, hide = true", &["bool", "Option<u8>", "Vec<u8>", "Option<Vec<u8>>"])],
        12 if !t.exclusive => vec!["#[command(flatten)] zq1: G".into(), "/// Doc.\n #[command(flatten)] pub zq2: G".into()],
        13 if !t.flatten => vec![f!(r, "zq1", "long, exclusive = true", NAMED), f!(r, "zq2", "long, exclusive = true", NAMED)],
        16 if !t.positional => vec![
            f!(r, "zq1", "value_name = \"É\"", SINGLE),
            f!(r, "zq2", "hide = true", SINGLE),
            f!(r, "zq3", r.pick(&["value_name = \"V\"", "required = true", "trailing_var_arg = true", "value_delimiter = ':'"]), LISTS),
            f!(r, "zq4", "last = true", LISTS),
        ],
        17 if !t.positional => vec![f!(r, "zq1", "last = true, value_name = \"V\"", LISTS), f!(r, "zq2", "hide = true", SINGLE), f!(r, "zq3", "hide = true", SINGLE)],
        18 => vec![f!(r, "zq1", "long = \"ж\", short = 'Ж', alias = \"€\"", NAMED), f!(r, "zq2", "short = '€', short_alias = '🦀'", NAMED), f!(r, "zq3", "long = \"zq1-\", require_equals = true, default_value = \"=\"", SINGLE)],
        14 => (0..40).map(|k| f!(r, &format!("zq{k}"), "long", NAMED)).collect(),
        _ => vec![f!(r, "zq1", "long, aliases = [\"zqa\", \"zqb\",], alias = \"zqc\", short_aliases = ['ж', 'ю']", NAMED)],
    };
    // Of other names than what is injected next.
    let chunks = chunks.into_iter().map(|c: String| c.replace("zq", "zg").replace("Zq", "Zg").replace("ZQ", "ZG").replace('ж', "щ").replace('ю', "ъ")).collect();
    Change { chunks, expect: Expect::Good }
}

fn bad_variants(r: &mut Rng, kind: &str, list: &TokenStream, verbatim: bool) -> Change {
    let taken: Vec<String> = segments(list.clone()).iter().map(|s| attrs(s).1).collect();
    let chunks = if kind == "ValueEnum" {
        // One word with nothing said of its name.
        let plain: Vec<String> = segments(list.clone())
            .iter()
            .map(|s| attrs(s))
            .filter(|(a, n)| {
                !a.iter().any(|a| a.starts_with("value")) && n.starts_with(|c: char| c.is_ascii_uppercase()) && n.chars().skip(1).all(|c| c.is_ascii_lowercase())
            })
            .map(|(_, n)| n)
            .collect();
        let names: Vec<String> = segments(list.clone())
            .iter()
            .flat_map(|s| attrs(s).0)
            .filter_map(|a| a.replace(' ', "").starts_with("value(name").then(|| a[a.find('"')?..=a.rfind('"')?].to_string().into()).flatten())
            .collect();
        match r.below(11) {
            // One of the names given is what the other gets by renaming, whatever the style.
            8 => {
                let mut v: Vec<String> = ["zq", "Zq", "ZQ"].iter().enumerate().map(|(k, n)| format!("#[value(name = \"{n}\")] Zq{k}")).collect();
                v.insert(r.below(4), "Zq".into());
                v
            }
            9 if !plain.is_empty() => {
                let n: String = r.pick(&plain).clone();
                [n.to_ascii_lowercase(), n.clone(), n.to_ascii_uppercase()].iter().enumerate().map(|(k, n)| format!("#[value(name = \"{n}\")] Zq{k}")).collect()
            }
            // The same in every style but these.
            10 => {
                let v = if verbatim { ["#[value(name = \"Zq\")] Zq1", "#[value(name = \"Zq\")] Zq2"] } else { ["Zq", "#[value()] Zq_"] };
                v.iter().map(|x| x.to_string()).collect()
            }
            0 => vec!["#[value(name = \"zq dup\")] Zq1".into(), "#[value(name = \"zq dup\")] Zq2".into()],
            1 => vec!["#[value(name = \"é\")] Zq1".into(), "/// Doc.\n #[value(name = \"é\")] Zq2".into()],
            2 if !names.is_empty() => vec![format!("#[value(name = {})] Zq1", r.pick(&names))],
            3 => vec![format!("#[value(name = {})] Zq1", r.pick(&["\"a\\0b\"", "\"\\n\"", "\"\\u{7f}\"", "\"zq\\t\""]))],
            4 => vec![format!("Zq1{}", r.pick(&["(u8)", "()", " { }", " { x: u8 }"]))],
            5 => vec![format!("#[value({})] Zq1", r.pick(&["bogus", "skip", "help = \"x\"", "alias = \"x\"", "rename_all = \"lower\"", "name", "name = 'x'", "name = 1"]))],
            6 => vec!["#[value(name = \"zq\", name = \"zq\")] Zq1".into()],
            _ => vec!["#[value(name = \"zq\")] #[value(name = \"zq2\")] Zq1".into()],
        }
    } else {
        let body = |r: &mut Rng| *r.pick(&["", " { }", "(G)", " { #[arg(long)] x: bool }"]);
        match r.below(8) {
            0 => vec![format!("ZqAb{}", body(r)), format!("Zq_Ab{}", body(r))],
            1 => vec![format!("ZqAb{}", body(r)), format!("ZQAb{}", body(r))],
            2 if !taken.is_empty() => {
                // Another spelling of a name that is there.
                let n = r.pick(&taken).clone();
                if n.starts_with("r#") || n.ends_with('_') {
                    vec!["Zq1(u8, u8)".into()]
                } else {
                    vec![format!("{n}_{}", body(r))]
                }
            }
            3 => vec![format!("Zq1{}", r.pick(&["(G, G)", "()", "(u8, u8, u8)"]))],
            4 => vec![format!("{}Zq1(G)", r.pick(&["/// Doc.\n ", "#[command(long_about)] ", "#[command(after_long_help = \"x\")] "]))],
            5 => vec![format!("#[command({})] Zq1{}", r.pick(&["bogus", "name = 3", "about = \"x\"", "author", "after_help = \"x\"", "term_width = 3", "max_term_width = 1", "long_about, long_about", "version, version"]), r.pick(&["", " { }"]))],
            6 => vec![format!("#[arg(long)] Zq1{}", r.pick(&["", " { }"]))],
            _ => vec!["Zq1 { #[arg(long, requires = \"nope\")] x: bool }".into()],
        }
    };
    at_these(chunks)
}

fn good_variants(r: &mut Rng, kind: &str) -> Change {
    let chunks = if kind == "ValueEnum" {
        match r.below(3) {
            0 => vec!["#[value(name = \"zq\")] Zq1".into(), "#[value(name = \"ZQ\")] Zq2".into(), "#[value(name = \"zq \")] Zq3".into()],
            1 => vec!["/// Doc.\n Zq1 = 300".into(), "#[doc(hidden)] Zq2".into()],
            _ => vec!["#[value(name = \"zq=a,b é\")] Zq1".into()],
        }
    } else {
        match r.below(3) {
            // Names of one variant are no concern of another.
            0 => vec!["Zq1 { #[arg(long, short = 'ж')] x: bool }".into(), "Zq2 { #[arg(long, short = 'ж')] x: bool, #[command(subcommand)] y: S }".into()],
            1 => vec!["/// Doc.\n Zq1".into(), "#[command(long_about = \"x\", after_long_help = \"y\")] Zq2 { }".into(), "Zq3(G)".into()],
            _ => vec!["Zq1".into(), "Zq1x".into(), "ZQ".into()],
        }
    };
    // Of other names than what is injected next.
    let chunks = chunks.into_iter().map(|c: String| c.replace("zq", "zg").replace("Zq", "Zg").replace("ZQ", "ZG").replace('ж', "щ").replace('ю', "ъ")).collect();
    Change { chunks, expect: Expect::Good }
}

/// Puts the pieces into the group at `path`, in this order, at random places.
fn place(r: &mut Rng, ts: TokenStream, path: &[usize], chunks: &[String]) -> TokenStream {
    let mut at: Vec<usize> = Vec::new();
    let n = segments(stream(&ts, path)).len();
    for _ in chunks {
        at.push(r.below(n + 1));
    }
    at.sort();
    edit(ts, path, &mut |t| {
        let TokenTree::Group(g) = t else { return vec![t] };
        let old = segments(g.stream());
        let mut new = vec![];
        for k in 0..=old.len() {
            for (a, c) in at.iter().zip(chunks) {
                if *a == k {
                    new.push(toks(c));
                }
            }
            if k < old.len() {
                new.push(old[k].clone());
            }
        }
        vec![Group::new(g.delimiter(), join(new)).into()]
    })
}

/// The whole definition takes the wrong shape.
fn bad_shape(r: &mut Rng, d: &Def, ts: TokenStream) -> Option<Def> {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    let bad = |kind: &str, v: Vec<TokenTree>| Some(Def { kind: kind.into(), text: v.into_iter().collect::<TokenStream>().to_string(), expect: Expect::Bad(vec![]) });
    let is_enum = d.kind == "Subcommand" || d.kind == "ValueEnum";
    match r.below(7) {
        0 if d.kind != "ValueEnum" => {
            let g = toks(r.pick(&["<T>", "<'a>", "<const N: usize>", "where u8: Copy"]));
            let at = v.len() - 1;
            v.splice(at..at, g);
            bad(&d.kind, v)
        }
        1 => {
            let k = if is_enum { ["Parser", "Args"] } else { ["Subcommand", "ValueEnum"] };
            bad(r.pick(&k), v)
        }
        2 if !is_enum => {
            v.pop();
            v.extend(toks(r.pick(&["(u8);", ";", "();"])));
            bad(&d.kind, v)
        }
        3 => {
            let which = if d.kind == "ValueEnum" { "value" } else { "command" };
            let at = if d.kind == "Subcommand" { return None } else { *r.pick(&["bogus", "bogus = 3", "=", "name = 3, x"]) };
            let mut n = toks(&format!("#[{which}({at})]"));
            n.extend(v);
            bad(&d.kind, n)
        }
        4 if d.kind == "ValueEnum" => {
            let mut n = toks(&format!("#[value(rename_all = {})]", r.pick(&["\"bogus\"", "\"Kebab-case\"", "\"lowercase\"", "\"UPPERCASE\"", "3", "\"\""])));
            n.extend(v);
            bad(&d.kind, n)
        }
        5 if d.kind == "Parser" || d.kind == "Args" => {
            let mut n = toks(&format!("#[command({})]", r.pick(&["author", "author = \"me\"", "about = \"x\"", "about", "after_help = \"x\"", "term_width = 80", "max_term_width = 80", "name = \"a\", name = \"a\"", "long_about, long_about = \"x\""])));
            n.extend(v);
            bad(&d.kind, n)
        }
        6 if !is_enum => {
            // One field too many.
            let Some(TokenTree::Group(g)) = v.pop() else { return None };
            let old = segments(g.stream());
            let mut s = vec![];
            for k in 0..255usize.saturating_sub(old.len()) + r.below(3) {
                s.push(toks(&format!("#[arg(long)] zq{k}: bool")));
            }
            s.extend(old);
            v.push(Group::new(Delimiter::Brace, join(s)).into());
            bad(&d.kind, v)
        }
        _ => None,
    }
}

fn body_path(ts: &TokenStream) -> Vec<usize> {
    vec![positions(ts).iter().filter(|p| p.len() == 1).count() - 1]
}

/// One that is found out by itself.
fn mistake(which: usize, kind: &str, fields: bool, k: usize) -> String {
    if fields {
        let (at, ty) = match which {
            0 | 1 => ("long, bogus".to_string(), "bool"),
            2 => ("long, hide = false".into(), "u8"),
            3 => (format!("long, requires = \"zq_nope{k}\""), "bool"),
            4 => (format!("long = \"-zq{k}\""), "bool"),
            5 => ("long, default_value = \"1\", default_value_t = 1".into(), "u8"),
            6 => ("long, value_name = \"a\\nb\"".into(), "String"),
            7 => ("long, allow_negative_numbers = true".into(), "bool"),
            _ => ("long".into(), "Option<Option<u8>>"),
        };
        format!("#[arg({at})] zq{k}x: {ty}")
    } else if kind == "ValueEnum" {
        match which {
            0..=3 => format!("#[value(bogus)] Zq{k}x"),
            4..=6 => format!("Zq{k}x(u8)"),
            _ => format!("#[value(name = \"a\\n{k}\")] Zq{k}x"),
        }
    } else {
        match which {
            0..=3 => format!("#[command(bogus)] Zq{k}x"),
            4..=6 => format!("Zq{k}x(u8, u8)"),
            _ => format!("Zq{k}x {{ #[arg(long, bogus)] x: bool }}"),
        }
    }
}

/// Where the pieces are in the text.
fn find(text: &str, chunks: &[String]) -> Option<Vec<(usize, usize)>> {
    chunks
        .iter()
        .map(|c| {
            let c: TokenStream = toks(c).into_iter().collect();
            let c = c.to_string();
            let at = text.find(&c)?;
            let col = text[..at].chars().count();
            Some((col, col + c.chars().count()))
        })
        .collect()
}

/// A sound definition with something sound added, or with a contradiction injected.
pub fn inject(d: &Def, r: &mut Rng, sound: bool) -> Option<Def> {
    let ts: TokenStream = d.text.parse().ok()?;
    if !sound && r.pct(12) {
        return bad_shape(r, d, ts);
    }
    let fields = lists(d, &ts);
    let body = body_path(&ts);
    let is_enum = d.kind == "Subcommand" || d.kind == "ValueEnum";
    let verbatim = ["lower", "UPPER", "verbatim"].iter().any(|x| d.text.contains(&format!("\"{x}\"")));
    let (c, path) = if is_enum && (fields.is_empty() || d.kind == "ValueEnum" || r.pct(50)) {
        let list = stream(&ts, &body);
        (if sound { good_variants(r, &d.kind) } else { bad_variants(r, &d.kind, &list, verbatim) }, body)
    } else {
        let path = r.pick(&fields).clone();
        let t = taken(&stream(&ts, &path));
        (if sound { good_fields(r, &t) } else { bad_fields(r, &t) }, path)
    };
    // As many fields as there can be.
    if sound && !is_enum && r.pct(4) {
        let n = segments(stream(&ts, &path)).len();
        let add: Vec<String> = (n..254).map(|k| format!("#[arg(long)] zg{k}: bool")).collect();
        return Some(Def { kind: d.kind.clone(), text: place(r, ts, &path, &add).to_string(), expect: Expect::Good });
    }
    // Many contradictions, none of which excuses leaving out another.
    if !sound && r.pct(12) {
        let n = segments(stream(&ts, &path)).len();
        let count = if r.pct(50) { r.range(2, 6) } else { r.range(6, 40) };
        if n + count > 250 {
            return None;
        }
        let only = r.pct(30).then(|| r.below(9));
        let chunks: Vec<String> = (0..count).map(|k| mistake(only.unwrap_or_else(|| r.below(9)), &d.kind, !is_enum || path != body_path(&ts), k)).collect();
        let text = place(r, ts, &path, &chunks).to_string();
        let at = find(&text, &chunks)?;
        return Some(Def { kind: d.kind.clone(), text, expect: Expect::Each(at) });
    }
    // Not too many fields by accident.
    if segments(stream(&ts, &path)).len() + c.chunks.len() > 240 {
        return None;
    }
    let text = place(r, ts, &path, &c.chunks).to_string();
    let expect = match c.expect {
        Expect::Bad(v) if !v.is_empty() => Expect::Bad(find(&text, &c.chunks)?),
        e => e,
    };
    Some(Def { kind: d.kind.clone(), text, expect })
}
