//! Contract of the real `SelectAll`: `poll_next` yields an item of *some* sub-stream that has one
//! (which one is unspecified; here an arbitrary rotation decides), drops sub-streams that ended,
//! is `Pending` when no sub-stream has an item and `Ready(None)` when there is no sub-stream left.
use crate::stream::Stream;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Three sub-streams; loop-free on purpose.
pub struct SelectAll<St> {
    pub s0: Option<St>,
    pub s1: Option<St>,
    pub s2: Option<St>,
}
impl<St> std::fmt::Debug for SelectAll<St> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SelectAll")
    }
}
impl<St> Default for SelectAll<St> {
    fn default() -> Self {
        SelectAll { s0: None, s1: None, s2: None }
    }
}
pub fn select_all<I: IntoIterator>(it: I) -> SelectAll<I::Item> {
    let mut s = SelectAll::default();
    for x in it {
        s.push(x);
    }
    s
}
impl<St> SelectAll<St> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.s0.is_some() as usize + self.s1.is_some() as usize + self.s2.is_some() as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn push(&mut self, st: St) {
        if self.s0.is_none() {
            self.s0 = Some(st);
        } else if self.s1.is_none() {
            self.s1 = Some(st);
        } else if self.s2.is_none() {
            self.s2 = Some(st);
        } else {
            panic!("verification model: SelectAll capacity exceeded")
        }
    }
    pub fn clear(&mut self) {
        self.s0 = None;
        self.s1 = None;
        self.s2 = None;
    }
    pub fn iter(&self) -> impl Iterator<Item = &St> {
        self.s0.iter().chain(self.s1.iter()).chain(self.s2.iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, St> {
        IterMut { a: self.s0.as_mut(), b: self.s1.as_mut(), c: self.s2.as_mut() }
    }
}
pub struct IterMut<'a, St> {
    a: Option<&'a mut St>,
    b: Option<&'a mut St>,
    c: Option<&'a mut St>,
}
impl<'a, St> Iterator for IterMut<'a, St> {
    type Item = &'a mut St;
    fn next(&mut self) -> Option<&'a mut St> {
        if self.a.is_some() {
            self.a.take()
        } else if self.b.is_some() {
            self.b.take()
        } else {
            self.c.take()
        }
    }
}

#[cfg(kani)]
fn start() -> u8 {
    let s: u8 = kani::any();
    kani::assume(s < 3);
    s
}
#[cfg(not(kani))]
fn start() -> u8 {
    0
}

/// Poll one sub-stream; forget it if it ended.
fn one<St: Stream + Unpin>(s: &mut Option<St>, cx: &mut Context<'_>) -> Option<St::Item> {
    let r = match s {
        Some(st) => Pin::new(st).poll_next(cx),
        None => return None,
    };
    match r {
        Poll::Ready(Some(x)) => Some(x),
        Poll::Ready(None) => {
            *s = None;
            None
        }
        Poll::Pending => None,
    }
}

impl<St: Stream + Unpin> Stream for SelectAll<St>
where
    St::Item: vsupport::Commanded,
{
    type Item = St::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<St::Item>> {
        let this = &mut *self;
        if vsupport::sock().streams_on {
            return contract();
        }
        if this.is_empty() {
            return Poll::Ready(None);
        }
        let (x, y, z) = match start() {
            0 => (&mut this.s0, &mut this.s1, &mut this.s2),
            1 => (&mut this.s1, &mut this.s2, &mut this.s0),
            _ => (&mut this.s2, &mut this.s0, &mut this.s1),
        };
        if let Some(i) = one(x, cx) {
            return Poll::Ready(Some(i));
        }
        if let Some(i) = one(y, cx) {
            return Poll::Ready(Some(i));
        }
        if let Some(i) = one(z, cx) {
            return Poll::Ready(Some(i));
        }
        if this.is_empty() {
            Poll::Ready(None)
        } else {
            Poll::Pending
        }
    }
}
impl<St: Stream + Unpin> crate::stream::FusedStream for SelectAll<St>
where
    St::Item: vsupport::Commanded,
{
    fn is_terminated(&self) -> bool {
        self.is_empty()
    }
}

/// Switched on by harnesses that verify a user of the whole: any commands of any streams.
fn contract<I: vsupport::Commanded>() -> Poll<Option<I>> {
    let s = vsupport::sock();
    s.commands_pending = true;
    if s.no_streams {
        return Poll::Ready(None);
    }
    #[cfg(kani)]
    let pending = kani::any();
    #[cfg(not(kani))]
    let pending = false;
    if s.command_budget == 0 || pending {
        return Poll::Pending;
    }
    s.command_budget -= 1;
    s.commands_pending = false;
    let i = I::any();
    if s.commands < 4 {
        s.command[s.commands as usize] = i.record();
    }
    s.commands += 1;
    Poll::Ready(Some(i))
}
