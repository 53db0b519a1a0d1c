//! Compares what was observed with what the model allows.

use crate::exec::{CaseSeen, HELP, RenderSeen, RunSeen, SeenOut, StepSeen, help_ref, world};
use crate::plan::{Case, Render};
use clispec::model::{Ev, Outcome, program_name};
use clispec::spec::Ty;
use simrt::ctx::Event;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Class {
    /// Requested arguments it should not have, or too few.
    Pulls,
    /// Asked again after the end.
    AfterEnd,
    /// Wrong conversions.
    Conv,
    /// Requests and conversions interleaved wrongly.
    Order,
    /// Accepted although it must be refused.
    Accepted,
    /// Refused although it must be accepted.
    Refused,
    /// A wrong result.
    Result,
    /// Refused with a wrong message.
    Message,
    /// Wrong `source()`.
    Source,
    /// Help where none was due, or no help where it was.
    HelpDue,
    /// Wrong help text.
    HelpText,
    /// Help that does not say what the definition declares.
    HelpContent,
    Ledger,
    Leak,
    Panic,
    Hang,
    Sink,
    Differs,
    Exit,
    Stderr,
    Stdout,
    /// Reached outside of the process.
    Effect,
    /// More work or memory than its arguments account for.
    Cost,
}

impl Class {
    pub fn name(self) -> String {
        format!("{self:?}")
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: Class,
    pub msg: String,
    /// (client, step) it was seen at.
    pub at: (usize, usize),
}

fn show_ev(e: &Ev) -> String {
    match e {
        Ev::Pull(n) => format!("request→#{n}"),
        Ev::PullEnd => "request→end".into(),
        Ev::Conv(t, b) => format!("convert {t:?} {}", clispec::spec::show_bytes(b)),
    }
}

fn tail(v: &[Ev], from: usize) -> String {
    let from = from.saturating_sub(1);
    let s: Vec<String> = v[from.min(v.len())..].iter().take(4).map(show_ev).collect();
    format!("…{}{}", s.join(", "), if v.len() > from + 4 { ", …" } else { "" })
}

/// How the observed outcome relates to the model's, ignoring help texts.
pub fn outcome_text(o: &SeenOut, text: Option<&String>, help: Option<&String>) -> String {
    match o {
        SeenOut::Ok(o) => format!("accepted {}", short(&o.show())),
        SeenOut::Panicked(m) => format!("panicked: {m}"),
        SeenOut::Err { .. } => match (text, help) {
            (Some(t), _) => format!("error {:?}", short(t)),
            (None, Some(t)) => format!("help {:?}", short(t)),
            _ => "error".into(),
        },
    }
}

fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        format!("{}…", s.chars().take(300).collect::<String>())
    } else {
        s.to_string()
    }
}

fn events_as_model(ev: &[Event]) -> Vec<Ev> {
    ev.iter()
        .filter_map(|e| match e {
            Event::Pull(n) => Some(Ev::Pull(*n)),
            Event::PullEnd => Some(Ev::PullEnd),
            Event::Conv(t, b) => Some(Ev::Conv(*t, b.clone())),
            _ => None,
        })
        .collect()
}

pub fn judge_run(s: &RunSeen, out: &mut Vec<Viol>, at: (usize, usize)) {
    let mut add = |class, msg: String| out.push(Viol { class, msg, at });
    if let SeenOut::Panicked(m) = &s.out {
        add(Class::Panic, format!("the parse panicked: {m}"));
        return;
    }

    // ---- Requests and conversions ----
    if s.events.iter().any(|e| matches!(e, Event::PullAfterEnd(_))) {
        add(Class::AfterEnd, "asked for another argument after the end was reported".into());
    }
    if let Some(Event::WrongConv(t, b)) =
        s.events.iter().find(|e| matches!(e, Event::WrongConv(..)))
    {
        add(Class::Conv, format!("used the text conversion of {t:?} on {}", clispec::spec::show_bytes(b)));
    }
    let seen = events_as_model(&s.events);
    let want = &s.expected.events;
    let common = seen.iter().zip(want).take_while(|(a, b)| a == b).count();
    if common == want.len() {
        // The rest may only be conversions of textual defaults.
        let mut left: Vec<(Ty, Vec<u8>)> = s.expected.defaults.clone();
        let mut bad = None;
        for e in &seen[common..] {
            match e {
                Ev::Conv(t, b) => match left.iter().position(|x| x.0 == *t && x.1 == *b) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => bad = bad.or(Some((Class::Conv, e))),
                },
                e => bad = bad.or(Some((Class::Pulls, e))),
            }
        }
        if let Some((c, e)) = bad {
            add(c, format!("unexpected after everything was done: {}", show_ev(e)));
        } else if matches!(s.expected.outcome, Outcome::Ok(_)) && !left.is_empty() {
            add(Class::Conv, format!("default {} was not converted", clispec::spec::show_bytes(&left[0].1)));
        }
    } else {
        let pulls = |v: &[Ev]| {
            v.iter().filter(|e| !matches!(e, Ev::Conv(..))).cloned().collect::<Vec<_>>()
        };
        let convs = |v: &[Ev]| {
            v.iter().filter(|e| matches!(e, Ev::Conv(..))).cloned().collect::<Vec<_>>()
        };
        let p = pulls(&seen) != pulls(want);
        let (cs, cw) = (convs(&seen), convs(want));
        let c = !cs.starts_with(&cw);
        let msg = format!("expected {} but saw {}", tail(want, common), tail(&seen, common));
        if p {
            add(Class::Pulls, msg.clone());
        }
        if c {
            add(Class::Conv, msg.clone());
        }
        if !p && !c {
            add(Class::Order, msg);
        }
    }

    // ---- Outcome ----
    match (&s.expected.outcome, &s.out) {
        (Outcome::Ok(want), SeenOut::Ok(got)) => {
            if want != got {
                add(Class::Result, format!("result {} instead of {}", short(&got.show()), short(&want.show())));
            }
        }
        (Outcome::Ok(want), SeenOut::Err { .. }) => {
            add(
                Class::Refused,
                format!(
                    "{} instead of accepting {}",
                    outcome_text(&s.out, s.text.as_ref(), s.help.as_ref()),
                    short(&want.show())
                ),
            );
        }
        (Outcome::Err(want), SeenOut::Ok(got)) => {
            add(Class::Accepted, format!("accepted {} instead of {:?}", short(&got.show()), want[0].text));
        }
        (Outcome::Err(want), SeenOut::Err { source, probe }) => {
            if let Some(h) = &s.help {
                add(Class::HelpDue, format!("help {:?} instead of {:?}", short(h), want[0].text));
            } else if let Some(t) = &s.text {
                match want.iter().find(|w| w.text == *t) {
                    None => {
                        add(Class::Message, format!("error {:?} instead of {:?}", short(t), want[0].text));
                    }
                    Some(w) => {
                        let ws = w.source.as_ref().map(|s| &s.text);
                        if ws != source.as_ref() {
                            add(Class::Source, format!("source {source:?} instead of {ws:?}"));
                        } else if w.source.as_ref().and_then(|s| s.probe) != *probe {
                            add(Class::Source, format!("source is not the conversion's own error (probe {probe:?})"));
                        }
                    }
                }
            }
        }
        (Outcome::Help { .. }, SeenOut::Ok(got)) => {
            add(Class::HelpDue, format!("accepted {} instead of help", short(&got.show())));
        }
        (Outcome::Help { path, .. }, SeenOut::Err { .. }) => {
            let program = program_name(&s.items[0]);
            let want = help_ref(s.plan.cli, path, &program);
            let got = s.help.as_ref().or(s.text.as_ref());
            if s.help.is_none() && !s.kept && s.render_panic.is_none() {
                add(Class::HelpDue, format!("{} instead of help", outcome_text(&s.out, s.text.as_ref(), None)));
            } else if want.is_none() {
                add(Class::HelpDue, "asking for this help alone in a fresh process gives none".into());
            }
            if let Some(got) = &s.help
                && s.disp_fault.is_none()
            {
                let e = clispec::help::expected(&crate::exec::world().cmds[s.plan.cli], path, &program);
                if !e.iter().any(|e| clispec::help::same_words(e, got)) {
                    add(Class::HelpContent, clispec::help::difference(&e[0], got));
                }
            }
            if let (Some(want), Some(got)) = (want, got) {
                if let Some((payload, wrote)) = &s.disp_fault {
                    let default = s.disp_default_index(payload);
                    let after = after_help(s.plan.cli, path);
                    let text = std::str::from_utf8(payload).unwrap_or("?");
                    if runtime_text(s.plan.cli, path, text) {
                        if !only_cut(&want, got, text, *wrote) {
                            add(Class::HelpText, format!("more than the rest of {text:?} is missing from the help, or damaged: {:?}", short(got)));
                        }
                    } else if let Err(e) = truncated_ok(&want, got, payload, *wrote, default, &after) {
                        add(Class::HelpText, e);
                    }
                } else if want != *got {
                    let p = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
                    add(
                        Class::HelpText,
                        format!(
                            "help differs from a fresh process's at byte {p}: {:?} instead of {:?}",
                            short(&String::from_utf8_lossy(&got.as_bytes()[p.saturating_sub(20)..])),
                            short(&String::from_utf8_lossy(&want.as_bytes()[p.saturating_sub(20)..]))
                        ),
                    );
                }
            }
        }
        (_, SeenOut::Panicked(_)) => unreachable!(),
    }

    // ---- Renderings ----
    if let Some(m) = &s.render_panic {
        add(Class::Panic, format!("rendering the error panicked: {m}"));
    }
    if let Some(t) = s.text.as_ref().or(s.help.as_ref()) {
        judge_renders(&s.renders, t, matches!(s.out, SeenOut::Err { probe: Some(_), .. }), &mut add);
    }

    for e in &s.effects {
        add(Class::Effect, format!("the parse {e}"));
    }
    for l in &s.ledger {
        add(Class::Ledger, l.clone());
    }
    if !s.kept && s.leak != (0, 0)
        && s.render_panic.is_none()
        && !matches!(s.out, SeenOut::Panicked(_))
    {
        add(Class::Leak, format!("{} bytes in {} blocks not released", s.leak.0, s.leak.1));
    }
    for n in &s.nested {
        judge_run(n, out, at);
    }
}

impl RunSeen {
    fn disp_default_index(&self, _payload: &[u8]) -> usize {
        0
    }
}

/// The text declared to follow the options of the command at `path`.
fn after_help(cli: usize, path: &[usize]) -> String {
    let mut c = &crate::exec::world().cmds[cli];
    for &i in path {
        c = &c.sub().unwrap().variants[i].cmd;
    }
    c.after_help.clone().unwrap_or_default()
}

/// Is it one of the texts that the help of the command at `path` formats as it is?
fn runtime_text(cli: usize, path: &[usize], text: &str) -> bool {
    let mut c = &crate::exec::world().cmds[cli];
    for &i in path {
        c = &c.sub().unwrap().variants[i].cmd;
    }
    let about = |c: &clispec::spec::Cmd| matches!(&c.long_about, Some(clispec::spec::About::Runtime(t)) if t == text);
    about(c) || c.after_runtime && c.after_help.as_deref() == Some(text) || c.sub().is_some_and(|s| s.variants.iter().any(|v| about(&v.cmd)))
}

/// Is `got` what `want` is, but for the rest of `text`, of which `wrote` bytes were written?
/// White space next to it may be missing as well.
fn only_cut(want: &str, got: &str, text: &str, wrote: usize) -> bool {
    let line = text.lines().next().unwrap_or("");
    [text, line].iter().any(|t| {
        want.match_indices(t).any(|(p, _)| {
            let (head, tail) = (want[..p + wrote.min(t.len())].trim_end(), want[p + t.len()..].trim_start());
            got.len() <= want.len()
                && got.strip_prefix(head).is_some_and(|rest| rest.strip_suffix(tail).is_some_and(|between| between.trim().is_empty()))
        })
    })
}

/// `got` must be `want` with a part missing only between the failing default and the text after
/// the options.
fn truncated_ok(
    want: &str,
    got: &str,
    payload: &[u8],
    wrote: usize,
    _n: usize,
    after: &str,
) -> Result<(), String> {
    let payload = std::str::from_utf8(payload).unwrap();
    let Some(p) = want.find(&format!("[default: {payload}]")) else {
        return Err(format!("default {payload:?} is not shown in help"));
    };
    let head = &want[..p + "[default: ".len() + wrote];
    if !got.starts_with(head) {
        return Err(format!("what was rendered before the failing default {payload:?} is damaged: {:?}", short(got)));
    }
    if !got[head.len()..].ends_with(after) {
        return Err(format!("the text after the options is missing after default {payload:?} failed: {:?}", short(got)));
    }
    // In between only parts of the original may be left, in order.
    let mut rest = want[head.len()..want.len() - after.len()].chars();
    for c in got[head.len()..got.len() - after.len()].chars() {
        if !rest.any(|x| x == c) {
            return Err(format!("text that is not part of the help after default {payload:?} failed: {:?}", short(got)));
        }
    }
    Ok(())
}

fn judge_renders(
    rs: &[RenderSeen],
    text: &str,
    _has_probe: bool,
    add: &mut dyn FnMut(Class, String),
) {
    let debug = format!("Error {{ message: {text:?}, .. }}");
    for r in rs {
        let b = match r.op {
            Render::Debug | Render::DebugFail { .. } | Render::DebugErrFail(_) => debug.as_bytes(),
            _ => text.as_bytes(),
        };
        let got = &r.got[..];
        let show = || clispec::spec::show_bytes(got);
        if r.wrote_after {
            add(Class::Sink, format!("{:?}: wrote again after the writer failed (or the caller's own error changed)", r.op));
        }
        match &r.op {
            Render::Full => {
                if got != b {
                    add(Class::Sink, format!("rendered {} instead of {text:?}", short(&show())));
                }
            }
            Render::Debug => {
                if got != b {
                    add(Class::Sink, format!("debug form {} instead of {}", short(&show()), short(&debug)));
                }
            }
            Render::Source => {}
            Render::IntoHelp => {
                if r.ok && got != b {
                    add(Class::Sink, "extracted help differs from the rendered one".into());
                }
            }
            Render::FmtFail { at, take }
            | Render::DebugFail { at, take }
            | Render::Custom { at, take } => {
                if !b.starts_with(got) {
                    add(Class::Sink, format!("{:?}: received {} which is no prefix of {text:?}", r.op, short(&show())));
                } else if r.ok && got.len() != b.len() {
                    add(Class::Sink, format!("{:?}: success reported but only {} received", r.op, short(&show())));
                } else if r.ok && r.fired {
                    add(Class::Sink, format!("{:?}: the failure was not returned", r.op));
                } else if !r.ok && !r.fired {
                    add(Class::Sink, format!("{:?}: failure although the writer never failed", r.op));
                } else if !r.ok && *take && got.len() != *at {
                    add(Class::Sink, format!("{:?}: {} bytes received", r.op, got.len()));
                }
            }
            Render::DebugErrFail(_) => {
                if !b.starts_with(got) {
                    add(Class::Sink, format!("{:?}: received {} which is no prefix of {debug:?}", r.op, short(&show())));
                } else if r.ok == r.fired {
                    add(Class::Sink, format!("{:?}: ok={} fired={}", r.op, r.ok, r.fired));
                } else if r.ok && got.len() != b.len() {
                    add(Class::Sink, format!("{:?}: success reported but only {} received", r.op, short(&show())));
                }
            }
            Render::Io(_) => {
                if !b.starts_with(got) {
                    add(Class::Sink, format!("{:?}: received {} which is no prefix of {text:?}", r.op, short(&show())));
                } else if r.ok && got.len() != b.len() {
                    add(Class::Sink, format!("{:?}: success reported but only {} received", r.op, short(&show())));
                }
            }
            Render::ErrFail(n) => {
                if !r.fired {
                    if got != b || !r.ok {
                        add(Class::Sink, format!("{:?}: rendered {} (ok={})", r.op, short(&show()), r.ok));
                    }
                } else {
                    if r.ok {
                        add(Class::Sink, "the conversion's error failed to render but success was reported".into());
                    }
                    let p = text.find("probe error").unwrap_or(0);
                    let pl = text[p..].find('\n').map_or(text.len(), |x| p + x);
                    let want = &b[..(p + n).min(pl)];
                    if got != want {
                        add(Class::Sink, format!("{:?}: received {} instead of {}", r.op, short(&show()), clispec::spec::show_bytes(want)));
                    }
                }
            }
        }
    }
}

pub fn judge_case(case: &Case, seen: &CaseSeen) -> Vec<Viol> {
    let mut out = Vec::new();
    for (c, steps) in seen.steps.iter().enumerate() {
        for (k, s) in steps.iter().enumerate() {
            match s {
                StepSeen::Run(r) => judge_run(r, &mut out, (c, k)),
                StepSeen::Take { from, renders, text, help, render_panic } => {
                    if let Some(m) = render_panic {
                        out.push(Viol {
                            class: Class::Panic,
                            msg: format!("rendering the error elsewhere panicked: {m}"),
                            at: (c, k),
                        });
                    }
                    // The message must be the one the originating parse stands for.
                    let Some(StepSeen::Run(orig)) =
                        seen.steps.get(from.0).and_then(|s| s.get(from.1))
                    else {
                        continue;
                    };
                    let t = text.as_ref().or(help.as_ref());
                    let o = orig.text.as_ref().or(orig.help.as_ref());
                    if let (Some(t), Some(o)) = (t, o) {
                        if t != o {
                            out.push(Viol {
                                class: Class::Differs,
                                msg: format!("rendered elsewhere: {:?} instead of {:?}", short(t), short(o)),
                                at: (c, k),
                            });
                        }
                        let mut add = |class, msg| out.push(Viol { class, msg, at: (c, k) });
                        judge_renders(renders, o, false, &mut add);
                    }
                }
                StepSeen::Nothing => {}
            }
        }
    }
    let panicked = out.iter().any(|v| v.class == Class::Panic);
    if !panicked {
        for l in &seen.ledger {
            out.push(Viol { class: Class::Ledger, msg: l.clone(), at: (0, 0) });
        }
    }
    _ = (case, HELP);
    out
}

/// Is the model's verdict on these two runs the same (so that the real outcomes must agree)?
pub fn same_expectation(a: &RunSeen, b: &RunSeen) -> bool {
    match (&a.expected.outcome, &b.expected.outcome) {
        (Outcome::Ok(x), Outcome::Ok(y)) => x == y,
        (Outcome::Err(x), Outcome::Err(y)) => {
            let key = |v: &[clispec::model::ErrExp]| {
                let mut k: Vec<String> = v.iter().map(|e| e.text.clone()).collect();
                k.sort();
                k
            };
            x[0].finishing && y[0].finishing && key(x) == key(y)
        }
        _ => false,
    }
}

/// Which named arguments are given what. (A name of a global argument may be another argument's in
/// a subcommand, with the same value and the same error in the end.)
fn given(r: &RunSeen) -> Vec<(*const clispec::spec::Arg, Option<Vec<u8>>)> {
    let d = r.plan.deliver();
    let root = &world().cmds[r.plan.cli];
    let (_, said) = clispec::model::run_traced(root, d.delivered(), d.conv_fail, HELP);
    said.into_iter().flat_map(|m| m.given).map(|g| (std::ptr::from_ref(g.arg), g.value)).collect()
}

/// For the same arguments written differently: do they mean the same?
pub fn same_meaning(a: &RunSeen, b: &RunSeen) -> bool {
    let convs = |r: &RunSeen| r.expected.events.iter().filter(|e| matches!(e, Ev::Conv(..))).cloned().collect::<Vec<_>>();
    if convs(a) != convs(b) || given(a) != given(b) {
        return false;
    }
    match (&a.expected.outcome, &b.expected.outcome) {
        (Outcome::Ok(x), Outcome::Ok(y)) => x == y,
        (Outcome::Err(x), Outcome::Err(y)) => {
            let texts = |v: &[clispec::model::ErrExp]| v.iter().map(|e| e.text.clone()).collect::<Vec<_>>();
            texts(x) == texts(y)
        }
        (Outcome::Help { path: x, .. }, Outcome::Help { path: y, .. }) => x == y,
        _ => false,
    }
}

/// For variations of the same arguments: did the outcome change?
pub fn outcomes_agree(a: &RunSeen, b: &RunSeen) -> bool {
    match (&a.out, &b.out) {
        (SeenOut::Ok(x), SeenOut::Ok(y)) => x == y,
        (SeenOut::Err { .. }, SeenOut::Err { .. }) => {
            // Which of several violated constraints is reported is unspecified.
            let known = |s: &RunSeen| match &s.expected.outcome {
                Outcome::Err(v) => {
                    s.text.as_ref().is_some_and(|t| v.iter().any(|e| e.text == *t))
                }
                _ => false,
            };
            a.help == b.help && (a.text == b.text || (known(a) && known(b)))
        }
        _ => false,
    }
}

