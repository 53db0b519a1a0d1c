//! What the help text of a command says, as words: layout is not promised.

use crate::spec::*;

/// The texts, any of which is right.
pub fn expected(root: &Cmd, path: &[usize], program: &str) -> Vec<String> {
    [true, false].iter().map(|&s| text(root, path, program, s)).collect()
}

/// How usage shows an argument: by its long name where it has one. `any_short`: also where the
/// short name is no ASCII character.
fn usage(a: &Arg, any_short: bool) -> String {
    let d = a.desc();
    match (a.is_named(), a.short_name(), a.long_name()) {
        (true, Some(c), Some(_)) if any_short || c.is_ascii() => d[format!("-{c}, ").len()..].to_string(),
        _ => d,
    }
}

fn shown_default(a: &Arg) -> Option<String> {
    match &a.default {
        Dflt::No => None,
        Dflt::Text(t) => Some(t.clone()),
        Dflt::Typed { obs, .. } => {
            let t = String::from_utf8(obs.clone()).expect("defaults are text");
            // Enums are observed by their variant and shown by its name.
            match a.ty.enum_table() {
                Some(table) if a.kind != Kind::Bool => {
                    Some(table.iter().find(|x| x.1 == t).expect("a variant").0.to_string())
                }
                _ => Some(t),
            }
        }
    }
}

fn describe(a: &Arg, out: &mut String) {
    *out += &format!("  {}\n", a.desc());
    for p in paragraphs(a.doc.as_deref().unwrap_or("")) {
        *out += &format!("          {p}\n");
    }
    if let Some(d) = shown_default(a) {
        *out += &format!("          [default: {d}]\n");
    }
    out.push('\n');
}

fn text(root: &Cmd, path: &[usize], program: &str, any_short: bool) -> String {
    let mut c = root;
    let mut names = vec![program.to_string()];
    for &i in path {
        let v = &c.sub().expect("a subcommand").variants[i];
        names.push(v.name.clone());
        c = &v.cmd;
    }
    let groups = c.groups();
    let visible: Vec<&Arg> = groups.iter().flat_map(|g| g.args()).filter(|a| !a.hide).collect();
    let named: Vec<&Arg> = visible.iter().copied().filter(|a| a.is_named()).collect();
    let mut o = format!("{}\n\nUsage: {}", c.about(), names.join(" "));
    for a in named.iter().filter(|a| a.must_be_given()) {
        o += &format!(" {}", usage(a, any_short));
    }
    if named.iter().any(|a| !a.must_be_given()) {
        o += " [OPTIONS]";
    }
    let positionals: Vec<&Arg> = c.positionals().into_iter().filter(|a| !a.hide).collect();
    for a in &positionals {
        match (a.last, a.must_be_given()) {
            (false, false) if !a.kind.multi() => {}
            (false, _) => o += &format!(" {}", a.desc()),
            (true, true) => o += &format!(" -- {}", a.desc()),
            (true, false) => o += &format!(" [-- {}]", a.desc()),
        }
    }
    if let Some(s) = c.sub() {
        o += if s.optional { " [COMMAND]\n\n" } else { " <COMMAND>\n\n" };
        o += "Commands:\n";
        for v in &s.variants {
            o += &format!("    {}  {}\n", v.name, v.cmd.about().lines().next().unwrap_or(""));
        }
    }
    if !positionals.is_empty() {
        o += "\n\nArguments:\n";
        positionals.iter().for_each(|a| describe(a, &mut o));
    }
    if !named.is_empty() {
        o += "\n\nOptions:\n";
        named.iter().for_each(|a| describe(a, &mut o));
    }
    o.push('\n');
    o + c.after_help.as_deref().unwrap_or("")
}

/// Does it say the same, whatever the layout?
pub fn same_words(a: &str, b: &str) -> bool {
    a.split_whitespace().eq(b.split_whitespace())
}

/// Where two texts first differ.
pub fn difference(want: &str, got: &str) -> String {
    let (w, g): (Vec<&str>, Vec<&str>) = (want.split_whitespace().collect(), got.split_whitespace().collect());
    let k = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
    let part = |v: &[&str]| v[k.saturating_sub(4).min(v.len())..(k + 6).min(v.len())].join(" ");
    format!("help says {:?} instead of {:?}", part(&g), part(&w))
}
