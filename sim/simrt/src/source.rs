//! The argument source handed to the parser.

use crate::ctx::{self, Event};
use crate::sched::Site;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Honest,
    None,
    Zero,
    Low,
    High,
    Huge,
}

pub struct Source {
    items: Vec<Vec<u8>>,
    at: usize,
    /// Report the end before this item.
    end: usize,
    ended: bool,
    /// After the end was reported, go on delivering.
    resume: bool,
    hint: Hint,
}

/// What it delivers: turning it into an argument is the caller's code, too.
#[derive(Clone)]
pub struct Item {
    n: usize,
    bytes: Vec<u8>,
}

impl From<Item> for OsString {
    fn from(i: Item) -> OsString {
        ctx::event(Event::Into(i.n), Site::Pull);
        OsString::from_vec(i.bytes)
    }
}

impl Source {
    pub fn new(items: Vec<Vec<u8>>, end: usize, resume: bool, hint: Hint) -> Self {
        let end = end.min(items.len());
        Source { items, at: 0, end, ended: false, resume, hint }
    }
    fn take(&mut self) -> Item {
        let bytes = std::mem::take(&mut self.items[self.at]);
        self.at += 1;
        Item { n: self.at - 1, bytes }
    }
}

impl Iterator for Source {
    type Item = Item;

    fn next(&mut self) -> Option<Item> {
        if self.ended {
            let more = self.resume && self.at < self.items.len();
            let n = self.at;
            ctx::event(Event::PullAfterEnd(more.then_some(n)), Site::Pull);
            return more.then(|| self.take());
        }
        if self.at >= self.end {
            ctx::event(Event::PullEnd, Site::Pull);
            self.ended = true;
            return None;
        }
        ctx::event(Event::Pull(self.at), Site::Pull);
        Some(self.take())
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        ctx::event(Event::SizeHint, Site::Pull);
        let left = self.end - self.at;
        match self.hint {
            Hint::Honest => (left, Some(left)),
            Hint::None => (0, None),
            Hint::Zero => (0, Some(0)),
            Hint::Low => (left / 2, Some(left / 2)),
            Hint::High => (left + 7, Some(left + 9)),
            Hint::Huge => (usize::MAX, None),
        }
    }
}
