//! Run-time side of the simulator: the instrumented argument source, the instrumented value
//! types, the allocator and the scheduler. Everything the parser under test can call back into
//! lives here, so the simulator observes and decides every such call.
#![allow(static_mut_refs)]

pub mod alloc;
pub mod cov;
pub mod ctx;
pub mod env;
pub mod mem;
mod futex;
pub mod sched;
pub mod source;
pub mod vals;

pub use clispec::spec::Obs;
pub use source::Source;

/// What a parse result looks like from outside.
pub trait Observe {
    fn observe(&self) -> Obs;
}

pub type Parsed = Result<Box<dyn Observe>, palc::Error>;

#[derive(Clone, Copy)]
pub struct Entry {
    pub parse: fn(Source) -> Parsed,
    pub main: fn() -> Box<dyn Observe>,
    pub long_help: Option<fn(&str) -> String>,
}

#[macro_export]
macro_rules! entry {
    ($t:ty) => {
        $crate::Entry {
            parse: |s| match <$t as $crate::palc_reexport::Parser>::try_parse_from(s) {
                Ok(v) => Ok(Box::new(v) as Box<dyn $crate::Observe>),
                Err(e) => Err(e),
            },
            main: || Box::new(<$t as $crate::palc_reexport::Parser>::parse()),
            #[cfg(feature = "help")]
            long_help: Some(|s| <$t as $crate::palc_reexport::Parser>::render_long_help(s)),
            #[cfg(not(feature = "help"))]
            long_help: None,
        }
    };
}
#[doc(hidden)]
pub use palc as palc_reexport;

/// Observation of field values.
pub mod ob {
    use super::{Obs, Observe};
    use crate::vals::ObsVal;

    pub fn flag(b: &bool) -> Obs {
        Obs::Flag(*b)
    }
    pub fn one<T: ObsVal>(v: &T) -> Obs {
        Obs::One(v.obs())
    }
    pub fn opt<T: ObsVal>(v: &Option<T>) -> Obs {
        v.as_ref().map_or(Obs::Absent, one)
    }
    pub fn optopt<T: ObsVal>(v: &Option<Option<T>>) -> Obs {
        match v {
            None => Obs::Absent,
            Some(None) => Obs::Bare,
            Some(Some(v)) => one(v),
        }
    }
    pub fn many<T: ObsVal>(v: &Vec<T>) -> Obs {
        Obs::Many(v.iter().map(ObsVal::obs).collect())
    }
    pub fn optmany<T: ObsVal>(v: &Option<Vec<T>>) -> Obs {
        v.as_ref().map_or(Obs::Absent, many)
    }
    pub fn optsub<T: Observe>(v: &Option<T>) -> Obs {
        v.as_ref().map_or(Obs::Absent, Observe::observe)
    }
}
