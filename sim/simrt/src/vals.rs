//! Instrumented value types.

use crate::ctx::{self, Event};
use crate::sched::{Site, yield_point};
use clispec::model::{OsErr, naturally_rejected, os_err, os_err_text};
use clispec::spec::Ty;
use std::ffi::{OsStr, OsString};
use std::fmt;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::str::FromStr;

pub trait ObsVal {
    fn obs(&self) -> Vec<u8>;
}

/// The common part of all probes: owned bytes and a ledger entry.
struct Probe {
    id: u32,
    bytes: Box<[u8]>,
}

impl Probe {
    fn new(b: &[u8]) -> Self {
        let bytes = b.into();
        Probe { id: ctx::born(false), bytes }
    }
    fn observe(&self) -> Vec<u8> {
        if let Some(e) = ctx::ledger().get_mut(self.id as usize) {
            e.seen += 1;
        }
        self.bytes.to_vec()
    }
    fn display(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        show(std::str::from_utf8(&self.bytes).unwrap_or("?"), &self.bytes, f)
    }
}

/// Formats the way a fault has it.
fn show(text: &str, bytes: &[u8], f: &mut fmt::Formatter<'_>) -> fmt::Result {
    {
        ctx::event(Event::Display(crate::alloc::harness(|| bytes.to_vec())), Site::Display);
        let fail = ctx::with(|c| {
            let n = c.displays;
            c.displays += 1;
            match c.disp_fail {
                Some((k, at)) if k == n => {
                    let at = text.floor_char_boundary(at);
                    crate::alloc::harness(|| {
                        c.disp_fault_fired = Some((bytes.to_vec(), at));
                    });
                    Some(at)
                }
                _ => None,
            }
        })
        .flatten();
        if let Some(at) = fail {
            f.write_str(&text[..at])?;
            return Err(fmt::Error);
        }
        // In pieces, as composite values do.
        let mid = text.floor_char_boundary(text.len() / 2);
        f.write_str(&text[..mid])?;
        yield_point(Site::Display);
        f.write_str(&text[mid..])
    }
}

/// A text of a definition that is formatted when help is.
pub struct Text(pub &'static str);
impl fmt::Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        show(self.0, self.0.as_bytes(), f)
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        ctx::died(self.id);
    }
}

/// A conversion's own error.
pub struct PErr {
    id: u32,
    pub n: usize,
    _heap: Box<[u8; 16]>,
}
impl PErr {
    fn new(n: usize) -> Self {
        PErr { id: ctx::born(true), n, _heap: Box::new([7; 16]) }
    }
}
impl Drop for PErr {
    fn drop(&mut self) {
        ctx::died(self.id);
    }
}
impl fmt::Debug for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "PErr({})", self.n)
    }
}
impl fmt::Display for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        yield_point(Site::Display);
        if let Some(n) = ctx::err_fail() {
            let s = crate::alloc::harness(|| format!("probe error {}", self.n));
            let r = f.write_str(&s[..n.min(s.len())]);
            crate::alloc::harness(|| drop(s));
            ctx::note_err_fail();
            r?;
            return Err(fmt::Error);
        }
        write!(f, "probe error {}", self.n)
    }
}
impl std::error::Error for PErr {}

fn convert(ty: Ty, b: &[u8]) -> Result<Probe, usize> {
    ctx::event(Event::Conv(ty, crate::alloc::harness(|| b.to_vec())), Site::Conv);
    let bad = ctx::with(|c| {
        let n = c.convs;
        c.convs += 1;
        let fault = c.conv_fail == Some(n);
        c.conv_fault_fired |= fault;
        (fault || naturally_rejected(b)).then_some(n)
    })
    .flatten();
    match bad {
        Some(n) => Err(n),
        None => Ok(Probe::new(b)),
    }
}

macro_rules! probe {
    ($name:ident) => {
        pub struct $name(Probe);
        impl $name {
            pub fn dflt(s: &str) -> Self {
                $name(Probe::new(s.as_bytes()))
            }
        }
        impl ObsVal for $name {
            fn obs(&self) -> Vec<u8> {
                self.0.observe()
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.display(f)
            }
        }
    };
}
probe!(PStr);
probe!(POs);
probe!(PBoth);
probe!(PFrom);
probe!(PText);

impl FromStr for PStr {
    type Err = PErr;
    fn from_str(s: &str) -> Result<Self, PErr> {
        convert(Ty::PStr, s.as_bytes()).map(PStr).map_err(PErr::new)
    }
}
impl TryFrom<&OsStr> for POs {
    type Error = Box<dyn std::error::Error + Send + Sync>;
    fn try_from(s: &OsStr) -> Result<Self, Self::Error> {
        convert(Ty::POs, s.as_bytes()).map(POs).map_err(|n| match os_err(n) {
            OsErr::Text | OsErr::Empty | OsErr::Lines => os_err_text(n).into(),
            OsErr::Raw(c) => std::io::Error::from_raw_os_error(c).into(),
            OsErr::Parser => palc::Error::custom(os_err_text(n)).into(),
        })
    }
}
impl TryFrom<&OsStr> for PBoth {
    type Error = PErr;
    fn try_from(s: &OsStr) -> Result<Self, PErr> {
        convert(Ty::PBoth, s.as_bytes()).map(PBoth).map_err(PErr::new)
    }
}
impl FromStr for PBoth {
    type Err = PErr;
    fn from_str(s: &str) -> Result<Self, PErr> {
        wrong(Ty::PBoth, s.as_bytes());
        Ok(PBoth(Probe::new(s.as_bytes())))
    }
}

fn wrong(ty: Ty, b: &[u8]) {
    ctx::event(Event::WrongConv(ty, crate::alloc::harness(|| b.to_vec())), Site::Conv);
}

impl From<&OsStr> for PFrom {
    fn from(s: &OsStr) -> Self {
        ctx::event(Event::Conv(Ty::PFrom, crate::alloc::harness(|| s.as_bytes().to_vec())), Site::Conv);
        PFrom(Probe::new(s.as_bytes()))
    }
}
impl FromStr for PFrom {
    type Err = PErr;
    fn from_str(s: &str) -> Result<Self, PErr> {
        wrong(Ty::PFrom, s.as_bytes());
        Ok(PFrom(Probe::new(s.as_bytes())))
    }
}
impl TryFrom<&OsStr> for PText {
    type Error = ();
    fn try_from(s: &OsStr) -> Result<Self, ()> {
        wrong(Ty::PText, s.as_bytes());
        Ok(PText(Probe::new(s.as_bytes())))
    }
}
impl FromStr for PText {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        convert(Ty::PText, s.as_bytes()).map(PText).map_err(|n| format!("probe error {n}"))
    }
}

macro_rules! by {
    ($t:ty, |$x:ident| $e:expr) => {
        impl ObsVal for $t {
            fn obs(&self) -> Vec<u8> {
                let $x = self;
                $e
            }
        }
    };
}
by!(String, |x| x.clone().into_bytes());
by!(OsString, |x| x.as_bytes().to_vec());
by!(PathBuf, |x| x.as_os_str().as_bytes().to_vec());
by!(u8, |x| x.to_string().into_bytes());
by!(i32, |x| x.to_string().into_bytes());
by!(char, |x| x.to_string().into_bytes());
by!(u64, |x| x.to_string().into_bytes());
by!(f64, |x| x.to_string().into_bytes());
by!(Box<OsStr>, |x| x.as_bytes().to_vec());
by!(std::net::IpAddr, |x| x.to_string().into_bytes());
by!(std::num::NonZeroU16, |x| x.to_string().into_bytes());
by!(bool, |x| x.to_string().into_bytes());

macro_rules! venum {
    ($(#[$m:meta])* $n:ident { $($(#[$vm:meta])* $v:ident),* $(,)? }) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, palc::ValueEnum)]
        $(#[$m])*
        pub enum $n { $($(#[$vm])* $v),* }
        impl ObsVal for $n {
            fn obs(&self) -> Vec<u8> {
                format!("{self:?}").into_bytes()
            }
        }
    };
}
venum!(EnumA { Auto, Never, Always, NoOp });
venum!(
    #[value(rename_all = "SCREAMING_SNAKE_CASE")]
    EnumB { SlowMode, Fast, FastMode }
);
venum!(EnumC {
    #[value(name = "é")]
    E,
    #[value(name = "a b")]
    AB,
    #[value(name = "naïve")]
    Naive,
    #[value(name = "x=y")]
    XY,
});
venum!(
    #[value(rename_all = "camelCase")]
    EnumD {
        FooBarBaz, FooBaz, FooBar, #[value(name = "")] Empty, On, Off, OnOff, #[value(name = "none")] None,
        #[value(name = "some")] Some, Default, #[value(name = "aB")] AB, A, #[value(name = "aBC")] ABC,
        #[value(name = "abC")] AbC, V1, V10, V2, #[value(name = "-5")] MinusFive, #[value(name = "a,b")] Comma,
        #[value(name = "x86_64")] X8664,
    }
);
venum!(EnumP { Slow, Fast, XLarge });
impl TryFrom<&OsStr> for EnumP {
    type Error = PErr;
    fn try_from(s: &OsStr) -> Result<Self, PErr> {
        wrong(Ty::EnumP, s.as_bytes());
        Ok(EnumP::Fast)
    }
}
impl FromStr for EnumP {
    type Err = PErr;
    fn from_str(s: &str) -> Result<Self, PErr> {
        wrong(Ty::EnumP, s.as_bytes());
        Ok(EnumP::Slow)
    }
}
impl fmt::Display for EnumP {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        wrong(Ty::EnumP, b"display");
        f.write_str("not this")
    }
}
