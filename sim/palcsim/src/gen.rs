//! Workloads: what clients send, before anything happens to it on the way.

use crate::plan::Fault;
use clispec::model::{Given, Message, split_delim};
use clispec::rng::Rng;
use clispec::spec::*;
use std::collections::BTreeSet;

/// Arguments which stay together on the way (an option and its separate value).
#[derive(Clone, Debug)]
pub struct Unit {
    /// Producers: units sharing one keep their relative order.
    pub keys: Vec<u32>,
    pub items: Vec<Vec<u8>>,
    /// Level whose definition it belongs to.
    pub owner: usize,
    pub global: bool,
}

#[derive(Clone, Debug, Default)]
pub struct LevelLine {
    /// The name that enters this level; empty for the outermost.
    pub enter: Vec<u8>,
    pub units: Vec<Unit>,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub argv0: Vec<u8>,
    pub levels: Vec<LevelLine>,
    pub tail: Vec<Vec<u8>>,
}

impl Line {
    pub fn items(&self) -> Vec<Vec<u8>> {
        let mut v = vec![self.argv0.clone()];
        for (i, l) in self.levels.iter().enumerate() {
            if i > 0 {
                v.push(l.enter.clone());
            }
            for u in &l.units {
                v.extend(u.items.iter().cloned());
            }
        }
        v.extend(self.tail.iter().cloned());
        v
    }

    /// A random interleaving of the producers, globals possibly at other levels.
    pub fn shuffled(&self, r: &mut Rng) -> Line {
        let mut out = self.clone();
        let n = out.levels.len();
        if n > 1 && r.pct(60) {
            let mut globals = Vec::new();
            for l in &mut out.levels {
                let (g, rest) = std::mem::take(&mut l.units).into_iter().partition(|u| u.global && u.keys.len() == 1);
                l.units = rest;
                globals.push(g);
            }
            // Each producer's units move together to non-decreasing levels.
            let mut last: std::collections::HashMap<u32, usize> = Default::default();
            for g in globals.into_iter().flatten() {
                let g: Unit = g;
                let lo = *last.get(&g.keys[0]).unwrap_or(&g.owner).max(&g.owner);
                let at = r.range(lo, n - 1);
                last.insert(g.keys[0], at);
                out.levels[at].units.push(g);
            }
        }
        for l in &mut out.levels {
            // Random linear extension of the per-producer orders.
            let units = std::mem::take(&mut l.units);
            let mut last: std::collections::HashMap<u32, usize> = Default::default();
            let mut after: Vec<Vec<usize>> = vec![vec![]; units.len()];
            let mut waits = vec![0; units.len()];
            for (i, u) in units.iter().enumerate() {
                for k in &u.keys {
                    if let Some(p) = last.insert(*k, i) {
                        after[p].push(i);
                        waits[i] += 1;
                    }
                }
            }
            let mut ready: Vec<usize> = (0..units.len()).filter(|&i| waits[i] == 0).collect();
            let mut left: Vec<Option<Unit>> = units.into_iter().map(Some).collect();
            while !ready.is_empty() {
                let n = ready.len();
                let i = ready.swap_remove(r.below(n));
                l.units.push(left[i].take().unwrap());
                for &k in &after[i] {
                    waits[k] -= 1;
                    if waits[k] == 0 {
                        ready.push(k);
                    }
                }
            }
        }
        out
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// Chance that an optional argument is given.
    pub density: u32,
    /// Chance that a value is unusual.
    pub weird: u32,
    /// Chance that a value is invalid for its type.
    pub bad: u32,
    /// Respect the constraints.
    pub valid: bool,
    pub max_list: usize,
    /// Delimited values in one argument.
    pub max_frag: usize,
}

impl Opts {
    pub fn random(r: &mut Rng) -> Opts {
        Opts {
            density: *r.pick(&[5, 20, 40, 70]),
            weird: *r.pick(&[0, 5, 20]),
            bad: *r.pick(&[0, 0, 0, 2, 10]),
            valid: r.pct(85),
            max_list: if r.pct(2) { *r.pick(&[20, 40, 70, 140, 300]) } else { *r.pick(&[1, 2, 3, 6]) },
            max_frag: if r.pct(2) { *r.pick(&[20, 70, 140, 300]) } else { 4 },
        }
    }
}

/// Words that mean something somewhere in a definition.
#[derive(Default)]
pub struct Words {
    pub longs: Vec<String>,
    pub shorts: Vec<char>,
    pub subs: Vec<String>,
}

pub fn words(root: &Cmd) -> Words {
    let mut w = Words::default();
    root.visit_cmds(&mut |c| {
        for a in c.args() {
            w.longs.extend(a.longs());
            w.shorts.extend(a.shorts());
        }
        if let Some(s) = c.sub() {
            w.subs.extend(s.variants.iter().map(|v| v.name.clone()));
        }
    });
    w
}

const PLAIN: &[&str] = &["a", "foo", "x1", "hello world", "zz9", "Mixed", "/tmp/x.y", "7", "1"];
const ODD: &[&str] = &[
    "", "-", "é", "a=b", "=", "=x", "a,b", ",", "--", "-5", "-x", "--foo", "-1.5", "naïve", "日本",
    "{}", "%s", "a\nb", "\"q\"", "'", "\\", "-9223372036854775808", "--=", "-=", "\u{1F980}", "\u{200b}",
    "--help", "-h", "help", "bad", "bad,", "badge", " x", "x ", "\tx\t", " ", "\n", "x\r\n", "@file", "@", "\u{feff}x", "~", "~/x",
    "$HOME", "%PATH%", "\"\"", "''", "\"a", "a\"b c\"", "a\\", "\\n", "1e5", "0x10", "1,000", "1_0", "+1", "-0", "00", "none", "null",
    "true", "no", "*", "?", "[a]", "a*b", ";", "&", "|", "a|b", "<a>", "a:b", ":", "::", "a=b=c", "a==b", "==", "a=", "=a=", "-=x", "---",
    "----x", "--x-", "-é", "-日本", "--é", "é=1", "e\u{301}", "\u{202e}rev", "\u{1}x", "\u{7f}", "\u{85}", "\u{2028}", "ÀÉ", "ſ", "K", "ß", "İ",
    "#", "#x", "a\u{0}b", "\u{0}", "x\u{0}", "//", "a/", "/a", ".", "..", "...",
];
pub const BAD_BYTES: &[&[u8]] = &[
    b"\xff", b"a\xff", b"\xff\xfe=1", b"\xc3", b"\xe6\x97", b"-\xff", b"--\xff", b"--\xff=x", b"a\xc3=\x28",
    b"\xed\xa0\x80", b"\xf0\x9f\xa6", b"-a\xff", b"ok\x80ok", b"\xc0\xaf",
];

pub fn value(r: &mut Rng, ty: Ty, o: &Opts, w: &Words) -> Vec<u8> {
    if r.pct(o.bad) {
        return match r.below(4) {
            0 => b"bad".to_vec(),
            1 => r.pick(BAD_BYTES).to_vec(),
            2 => b"bad value".to_vec(),
            _ => r.pick(&["", "256", "zzz", "-", "2147483648", "tru", "99999999999999999999", "Auto", "18446744073709551616", "1.2.3", "1.2.3.256", "0", "65536", "1e", "foobar", "fooBa", "fooBarBa", "AB", " 1", "1 ", "1.0", "yes"]).as_bytes().to_vec(),
        };
    }
    let odd = r.pct(o.weird);
    match ty {
        Ty::PStr | Ty::PText | Ty::PFrom | Ty::POs | Ty::PBoth | Ty::Str | Ty::OsStr | Ty::Path | Ty::BoxOs => {
            let os = matches!(ty, Ty::POs | Ty::PBoth | Ty::PFrom | Ty::OsStr | Ty::Path | Ty::BoxOs);
            if !odd {
                if r.pct(20) {
                    return format!("v{}", r.below(1000)).into_bytes();
                }
                return r.pick(PLAIN).as_bytes().to_vec();
            }
            match r.below(6) {
                0 if os => r.pick(BAD_BYTES).to_vec(),
                1 if !w.subs.is_empty() => r.pick(&w.subs).clone().into_bytes(),
                2 if !w.longs.is_empty() => format!("--{}", r.pick(&w.longs)).into_bytes(),
                3 if !w.shorts.is_empty() => format!("-{}", r.pick(&w.shorts)).into_bytes(),
                4 if r.pct(2) => vec![b'L'; r.range(60_000, 70_000)],
                4 => vec![b'L'; r.range(50, 400)],
                _ => r.pick(ODD).as_bytes().to_vec(),
            }
        }
        Ty::U8 => match r.below(if odd { 4 } else { 1 }) {
            0 => r.below(256).to_string(),
            1 => "+7".into(),
            2 => "007".into(),
            _ => "255".into(),
        }
        .into_bytes(),
        Ty::I32 => match r.below(if odd { 5 } else { 2 }) {
            0 | 1 => r.below(100_000).to_string(),
            2 => format!("-{}", r.below(100)),
            3 => "-2147483648".into(),
            _ => "+0".into(),
        }
        .into_bytes(),
        Ty::Char => r
            .pick(if odd { &["=", "-", "é", "日", ",", " "][..] } else { &["a", "Z", "0"][..] })
            .as_bytes()
            .to_vec(),
        Ty::BoolV => r.pick(&["true", "false"]).as_bytes().to_vec(),
        Ty::U64 => match r.below(if odd { 4 } else { 1 }) {
            0 => r.below(1 << 40).to_string(),
            1 => "18446744073709551615".into(),
            2 => "+0".into(),
            _ => "00000000000000000000000000000001".into(),
        }
        .into_bytes(),
        Ty::F64 => match r.below(if odd { 9 } else { 2 }) {
            0 | 1 => format!("{}.{}", r.below(1000), r.below(1000)),
            k => ["-0", "NaN", "-inf", "1e5", "1E-400", ".5", "5."][k - 2].into(),
        }
        .into_bytes(),
        Ty::Ip => r
            .pick(if odd { &["::1", "::ffff:1.2.3.4", "fe80::", "2001:db8::1:0:0:1"][..] } else { &["127.0.0.1", "10.1.2.3"][..] })
            .as_bytes()
            .to_vec(),
        Ty::NonZero => r.pick(if odd { &["+1", "0065535", "65535"][..] } else { &["1", "80", "443"][..] }).as_bytes().to_vec(),
        Ty::EnumA | Ty::EnumB | Ty::EnumC | Ty::EnumD | Ty::EnumP | Ty::Gen(_) => {
            let t = ty.enum_table().unwrap();
            let s = r.pick(t).0.to_string();
            if odd && r.pct(50) { near(r, &s, t) } else { s }.into_bytes()
        }
    }
}

/// Almost the name of a variant.
fn near(r: &mut Rng, s: &str, t: &[(&str, &str)]) -> String {
    let cs: Vec<char> = s.chars().collect();
    let (name, ident) = *r.pick(t);
    match r.below(12) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => ident.to_string(),
        3 => clispec::enums::rename(*r.pick(&[None, Some("camelCase"), Some("snake_case"), Some("PascalCase")]), ident),
        4 if !cs.is_empty() => cs[..cs.len() - 1].iter().collect(),
        5 if !cs.is_empty() => cs[1..].iter().collect(),
        6 => format!("{s}{}", r.pick(&[" ", "a", "-", "\0", "1", "=", "\n"])),
        7 => format!("{}{s}", r.pick(&[" ", "a", "-", "\0", "1", "="])),
        8 => s.replace('-', "_"),
        9 => s.replace('_', "-"),
        10 => format!("{s}{name}"),
        _ => cs
            .iter()
            .map(|c| if !r.pct(30) { c.to_string() } else if c.is_uppercase() { c.to_lowercase().to_string() } else { c.to_uppercase().to_string() })
            .collect(),
    }
}

/// The value as given for this argument: possibly several joined, in another case.
fn arg_value(r: &mut Rng, a: &Arg, o: &Opts, w: &Words) -> Vec<u8> {
    let one = |r: &mut Rng| {
        let mut v = value(r, a.ty, o, w);
        if a.ignore_case && r.pct(50) {
            for b in &mut v {
                if r.pct(50) {
                    *b = b.to_ascii_uppercase();
                }
            }
        }
        v
    };
    let mut v = one(r);
    if let Some(d) = a.delim {
        for _ in 0..r.below(o.max_frag) {
            v.extend(d.encode_utf8(&mut [0; 4]).as_bytes());
            v.extend(one(r));
        }
    }
    v
}

/// Writes a named argument down, one way or another.
pub fn spell(r: &mut Rng, a: &Arg, o: &Opts, w: &Words) -> Vec<Vec<u8>> {
    let (longs, shorts) = (a.longs(), a.shorts());
    let long = shorts.is_empty() || (!longs.is_empty() && r.pct(50));
    let name = if long {
        format!("--{}", r.pick(&longs))
    } else {
        format!("-{}", r.pick(&shorts))
    }
    .into_bytes();
    let with_eq = |v: &[u8]| vec![[&name[..], b"=", v].concat()];
    match a.kind {
        Kind::Bool => vec![name],
        Kind::OptOpt => {
            if r.pct(50) {
                vec![name]
            } else {
                let v = arg_value(r, a, o, w);
                if !a.ty.text_probe() && !long && r.pct(10) {
                    return vec![[&name[..], &v].concat()];
                }
                with_eq(&v)
            }
        }
        _ => {
            let v = arg_value(r, a, o, w);
            if a.require_eq {
                return if r.pct(97) { with_eq(&v) } else { vec![name, v] };
            }
            let hyphen = v.len() > 1 && v[0] == b'-';
            let separate_ok = !hyphen
                || match a.hyphen {
                    Hyphen::Any => true,
                    Hyphen::Num => v[1..].iter().all(u8::is_ascii_digit),
                    Hyphen::No => false,
                };
            match r.below(if long { 2 } else { 3 }) {
                0 if separate_ok || r.pct(15) => vec![name, v],
                2 if !v.is_empty() && v[0] != b'=' => vec![[&name[..], &v].concat()],
                _ => with_eq(&v),
            }
        }
    }
}

/// The same arguments written other ways. Back to front, so that positions stay valid.
/// Some enum values arrive as almost the name of a variant.
pub fn misname(r: &mut Rng, all: &[Message<'_>]) -> Vec<Fault> {
    let mut out = Vec::new();
    for m in all.iter().rev() {
        let mut given = m.given.clone();
        let mut hit = false;
        for g in &mut given {
            let (Some(t), Some(v)) = (g.arg.ty.enum_table(), &g.value) else { continue };
            if !r.pct(70) {
                continue;
            }
            let Ok(v) = std::str::from_utf8(v) else { continue };
            let mut parts: Vec<String> = match g.arg.delim {
                Some(d) => v.split(d).map(String::from).collect(),
                None => vec![v.into()],
            };
            let k = r.below(parts.len());
            parts[k] = near(r, &parts[k], t);
            let d = g.arg.delim.map(String::from).unwrap_or_default();
            g.value = Some(parts.join(&d).into_bytes());
            hit = true;
        }
        if hit {
            out.push(Fault::Reframe(m.from, m.to - m.from, write(r, given)));
        }
    }
    out
}

pub fn mentions(all: &[Message<'_>], f: &dyn Fn(&Arg) -> bool) -> bool {
    all.iter().flat_map(|m| &m.given).any(|g| f(g.arg))
}

pub fn reframe(r: &mut Rng, all: &[Message<'_>]) -> Vec<Fault> {
    let mut out = Vec::new();
    let mut end = all.len();
    while end > 0 {
        // Neighbours, of which some are rewritten together.
        let mut start = end - 1;
        while start > 0 && all[start - 1].to == all[start].from && r.pct(80) {
            start -= 1;
        }
        if r.pct(80) {
            let given: Vec<Given<'_>> = all[start..end].iter().flat_map(|m| m.given.iter().cloned()).collect();
            let (from, to) = (all[start].from, all[end - 1].to);
            out.push(Fault::Reframe(from, to - from, write(r, given)));
        }
        end = start;
    }
    out
}

fn write(r: &mut Rng, given: Vec<Given<'_>>) -> Vec<Vec<u8>> {
    let mut buf = [0; 4];
    // Delimited values together or one by one.
    let mut parts: Vec<Given<'_>> = Vec::new();
    for g in given {
        let (Some(d), Some(v)) = (g.arg.delim, &g.value) else {
            parts.push(g);
            continue;
        };
        let d: &[u8] = d.encode_utf8(&mut buf).as_bytes();
        if let Some(p) = parts.last_mut()
            && std::ptr::eq(p.arg, g.arg)
            && r.pct(40)
        {
            p.value = Some([p.value.as_deref().unwrap(), d, v].concat());
        } else if r.pct(40) {
            for f in split_delim(v, g.arg.delim.unwrap()) {
                parts.push(Given { arg: g.arg, value: Some(f) });
            }
        } else {
            parts.push(g);
        }
    }
    let bundles = r.pct(60);
    let mut out: Vec<Vec<u8>> = Vec::new();
    // Whether another short name may follow in the same argument.
    let mut open = false;
    for g in parts {
        let a = g.arg;
        let (longs, shorts) = (a.longs(), a.shorts());
        let long = shorts.is_empty() || (!longs.is_empty() && r.pct(if open { 20 } else { 50 }));
        let name = if long { format!("--{}", r.pick(&longs)) } else { format!("-{}", r.pick(&shorts)) }.into_bytes();
        let mut items = match g.value {
            None => vec![name],
            Some(v) => {
                let free = a.kind.takes_value() && !a.require_eq;
                let separate_ok = free
                    && (v == b"-"
                        || v.first() != Some(&b'-')
                        || match a.hyphen {
                            Hyphen::Any => true,
                            Hyphen::Num => v[1..].iter().all(u8::is_ascii_digit),
                            Hyphen::No => false,
                        });
                match r.below(3) {
                    0 if separate_ok => vec![name, v],
                    1 if free && !long && !v.is_empty() && v[0] != b'=' => vec![[name, v].concat()],
                    _ => vec![[&name[..], b"=", &v].concat()],
                }
            }
        };
        let flag = !long && a.kind == Kind::Bool && items.len() == 1 && !items[0].contains(&b'=');
        if open && !long && bundles {
            out.last_mut().unwrap().extend(&items[0][1..]);
            items.remove(0);
        }
        out.extend(items);
        open = flag;
    }
    out
}

pub fn argv0(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => b"/usr/local/bin/tool".to_vec(),
        1 => b"./x y".to_vec(),
        2 => b"".to_vec(),
        3 => b"/".to_vec(),
        4 => "bin/é日".as_bytes().to_vec(),
        5 => b"a/..".to_vec(),
        6 if r.pct(50) => b"\xffprog".to_vec(),
        _ => format!("prog{}", r.below(50)).into_bytes(),
    }
}

pub fn line(r: &mut Rng, root: &Cmd, o: &Opts) -> Line {
    let w = words(root);
    let mut out = Line { argv0: argv0(r), levels: vec![], tail: vec![] };
    let mut cmd = root;
    let mut enter = Vec::new();
    let mut globals: Vec<(usize, u32, &Arg)> = Vec::new();
    let mut key = 0u32;
    loop {
        let level = out.levels.len();
        // Where to next?
        let next = cmd.sub().and_then(|s| {
            let must = !s.optional && (o.valid || r.pct(70));
            (!s.variants.is_empty() && (must || r.pct(65))).then(|| &s.variants[r.below(s.variants.len())])
        });
        let mut units: Vec<Unit> = Vec::new();
        let pos = cmd.positionals();
        let mut pos_want = 0;
        for (gi, g) in cmd.groups().into_iter().enumerate() {
            let args: Vec<&Arg> = g.args().collect();
            let mut inc: BTreeSet<usize> = (0..args.len())
                .filter(|&i| {
                    let a = args[i];
                    let p = if a.exclusive { 2 } else { o.density };
                    (a.must_be_given() && (o.valid || r.pct(80))) || r.pct(p)
                })
                .collect();
            if o.valid {
                let idx = |n: &str| args.iter().position(|a| a.ident == n).unwrap();
                for _ in 0..4 {
                    for i in inc.clone() {
                        if !inc.contains(&i) {
                            continue;
                        }
                        for q in &args[i].requires {
                            inc.insert(idx(q));
                        }
                        for q in &args[i].conflicts {
                            let j = idx(q);
                            if inc.contains(&j) {
                                inc.remove(if args[j].must_be_given() { &i } else { &j });
                            }
                        }
                        if args[i].exclusive && inc.len() > 1 {
                            inc.remove(&i);
                        }
                    }
                }
            }
            for i in inc {
                let a = args[i];
                if !a.is_named() {
                    if gi == 0
                        && let Some(p) = pos.iter().position(|x| std::ptr::eq(*x, a))
                    {
                        pos_want = pos_want.max(p + 1);
                    }
                    continue;
                }
                let k = key;
                key += 1;
                let n = if a.kind.multi() { r.range(1, o.max_list) } else { 1 };
                for _ in 0..n {
                    units.push(Unit { keys: vec![k], items: spell(r, a, o, &w), owner: level, global: a.global });
                }
            }
            for a in g.args().filter(|a| a.global) {
                globals.push((level, key, a));
                key += 1;
            }
        }
        // Globals given inside.
        if level > 0 {
            for &(owner, k, a) in &globals {
                if owner < level && r.pct(o.density / 3) {
                    units.push(Unit { keys: vec![k], items: spell(r, a, o, &w), owner, global: true });
                }
            }
        }
        // Positionals.
        let pkey = key;
        key += 1;
        let mut tail = Vec::new();
        let dashes = r.pct(20) && next.is_none();
        for (i, a) in pos.iter().enumerate() {
            let give = i < pos_want || (a.must_be_given() && o.valid);
            if !give {
                break;
            }
            let greedy = a.trailing || a.last;
            if greedy && next.is_some() {
                break;
            }
            let n = if a.kind.multi() { r.range(1, o.max_list) } else { 1 };
            for k in 0..n {
                let mut v = arg_value(r, a, o, &w);
                if v.first() == Some(&b'-') && v != b"-" && !(greedy && k > 0) && !dashes && r.pct(90) {
                    v = b"p".to_vec();
                }
                if greedy || dashes {
                    if (a.last || dashes) && tail.is_empty() {
                        tail.push(b"--".to_vec());
                    }
                    tail.push(v);
                } else {
                    units.push(Unit { keys: vec![pkey], items: vec![v], owner: level, global: false });
                }
            }
        }
        r.shuffle_keep_keys(&mut units);
        bundle(r, &mut units);
        out.levels.push(LevelLine { enter: std::mem::take(&mut enter), units });
        match next {
            Some(v) => {
                enter = v.name.clone().into_bytes();
                cmd = &v.cmd;
            }
            None => {
                out.tail = tail;
                return out;
            }
        }
    }
}

trait KeepKeys {
    fn shuffle_keep_keys(&mut self, v: &mut [Unit]);
}
impl KeepKeys for Rng {
    /// Shuffles, then restores the positionals' (single shared key) order.
    fn shuffle_keep_keys(&mut self, v: &mut [Unit]) {
        let before: Vec<Unit> = v.to_vec();
        self.shuffle(v);
        let mut next: std::collections::HashMap<u32, std::vec::IntoIter<Unit>> = Default::default();
        for u in &before {
            next.entry(u.keys[0]).or_insert_with(|| {
                before.iter().filter(|x| x.keys[0] == u.keys[0]).cloned().collect::<Vec<_>>().into_iter()
            });
        }
        for u in v {
            *u = next.get_mut(&u.keys[0]).unwrap().next().unwrap();
        }
    }
}

/// Joins neighbouring short arguments.
fn bundle(r: &mut Rng, units: &mut Vec<Unit>) {
    let mut i = 0;
    while i + 1 < units.len() {
        let is_flag = |u: &Unit| {
            u.items.len() == 1
                && u.items[0].len() > 1
                && u.items[0][0] == b'-'
                && u.items[0][1] != b'-'
                && std::str::from_utf8(&u.items[0]).is_ok_and(|s| s.chars().count() == 2 + (u.keys.len() - 1))
        };
        let short = |u: &Unit| u.items[0].len() > 1 && u.items[0][0] == b'-' && u.items[0][1] != b'-';
        if is_flag(&units[i]) && short(&units[i + 1]) && r.pct(40) {
            let u = units.remove(i + 1);
            units[i].items[0].extend(&u.items[0][1..]);
            units[i].items.extend(u.items.into_iter().skip(1));
            units[i].keys.extend(u.keys);
            units[i].global &= u.global;
            units[i].owner = units[i].owner.max(u.owner);
        } else {
            i += 1;
        }
    }
}

/// A line the model accepts, if one is found in a few attempts.
pub fn good_line(r: &mut Rng, root: &Cmd, o: &Opts, help: bool) -> Line {
    let mut l = line(r, root, o);
    for _ in 0..8 {
        if matches!(clispec::model::run(root, &l.items(), None, help).outcome, clispec::model::Outcome::Ok(_)) {
            break;
        }
        l = line(r, root, &Opts { valid: true, bad: 0, weird: o.weird / 2, ..*o });
    }
    l
}

/// An argument that means something in this definition.
pub fn token(r: &mut Rng, w: &Words) -> Vec<u8> {
    match r.below(14) {
        0 | 1 if !w.longs.is_empty() => format!("--{}", r.pick(&w.longs)).into_bytes(),
        2 if !w.longs.is_empty() => format!("--{}={}", r.pick(&w.longs), r.pick(PLAIN)).into_bytes(),
        3 | 4 if !w.shorts.is_empty() => format!("-{}", r.pick(&w.shorts)).into_bytes(),
        5 if !w.shorts.is_empty() => {
            let mut s = String::from("-");
            for _ in 0..r.range(1, 4) {
                s.push(*r.pick(&w.shorts));
            }
            s.into_bytes()
        }
        6 | 7 if !w.subs.is_empty() => r.pick(&w.subs).clone().into_bytes(),
        8 => b"--".to_vec(),
        9 => r.pick(&["--help", "-h", "help"]).as_bytes().to_vec(),
        10 => r.pick(ODD).as_bytes().to_vec(),
        11 => r.pick(&["--unknown", "-?", "--unknown=1", "stray"]).as_bytes().to_vec(),
        12 if !w.longs.is_empty() => {
            // Nearly a name.
            let mut s = r.pick(&w.longs).clone();
            if r.pct(50) { _ = s.pop() } else { s.push('x') }
            format!("--{s}").into_bytes()
        }
        _ => r.pick(PLAIN).as_bytes().to_vec(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum FaultMix {
    /// Loss, duplication, reordering.
    Transport,
    /// Damage to contents.
    Bytes,
    Any,
}

/// One random fault of the transport between client and parser.
pub fn item_fault(r: &mut Rng, items: &[Vec<u8>], w: &Words, mix: FaultMix) -> Fault {
    let n = items.len();
    let some = |r: &mut Rng| if n > 1 && r.pct(97) { r.range(1, n - 1) } else { 0 };
    let k = match mix {
        FaultMix::Transport => r.weighted(&[30, 35, 35, 0, 0, 0, 0, 0, 0]),
        FaultMix::Bytes => r.weighted(&[0, 0, 0, 40, 15, 10, 10, 10, 15]),
        FaultMix::Any => r.weighted(&[15, 15, 15, 8, 8, 6, 6, 22, 5]),
    };
    match k {
        0 => Fault::Lose(some(r)),
        1 => Fault::Dup(some(r)),
        2 => Fault::Move(some(r), some(r)),
        3 => {
            let i = some(r);
            let len = items.get(i).map_or(0, Vec::len).max(1);
            Fault::Flip(i, r.below(len), r.below(8) as u8)
        }
        4 => {
            let i = some(r);
            Fault::Cut(i, r.below(items.get(i).map_or(0, Vec::len).max(1)))
        }
        5 => Fault::Merge(some(r)),
        6 => {
            let i = some(r);
            Fault::Split(i, r.below(items.get(i).map_or(0, Vec::len) + 1))
        }
        7 => {
            let at = if n > 0 { r.range(1, n) } else { 0 };
            Fault::Insert(at, if mix == FaultMix::Bytes { junk(r, w) } else { token(r, w) })
        }
        _ => Fault::Replace(some(r), junk(r, w)),
    }
}

/// Garbage, partly built around real names.
pub fn junk(r: &mut Rng, w: &Words) -> Vec<u8> {
    match r.below(9) {
        0 => r.pick(BAD_BYTES).to_vec(),
        1 if !w.longs.is_empty() => [b"--", r.pick(&w.longs).as_bytes(), b"=", *r.pick(BAD_BYTES)].concat(),
        2 if !w.longs.is_empty() => [b"--", r.pick(&w.longs).as_bytes(), *r.pick(BAD_BYTES)].concat(),
        3 if !w.shorts.is_empty() => {
            let mut s = String::from("-");
            for _ in 0..r.range(1, 3) {
                s.push(*r.pick(&w.shorts));
            }
            [s.as_bytes(), *r.pick(BAD_BYTES)].concat()
        }
        4 if !w.shorts.is_empty() => {
            // A short name's encoding, torn.
            let mut s = format!("-{}", r.pick(&w.shorts)).into_bytes();
            s.pop();
            s
        }
        5 if !w.subs.is_empty() => [r.pick(&w.subs).as_bytes(), *r.pick(BAD_BYTES)].concat(),
        6 => {
            let n = r.range(1, 12);
            (0..n).map(|_| (1 + r.below(255)) as u8).collect()
        }
        7 => {
            let c = *r.pick(&[b'-', b'=', b'a', 0xff, b' ']);
            vec![c; r.range(1, 300)]
        }
        _ => r.pick(ODD).as_bytes().to_vec(),
    }
}
