//! Histories of the validating source over a scripted byte source and a scripted sink.
use crate::text::valid_up_to;
use crate::{nd, reach, times};
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use std::future::{Future, IntoFuture};
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};

/// What both ends saw.
pub struct Model {
    /// written by the source and not cancelled
    pub all: [u8; 12],
    pub made: usize,
    /// arrived at the sink
    pub total: usize,
    pub most: usize,
    pub waits: u8,
    pub hint: usize,
    pub act: Act,
    /// where the memory of the next write begins
    pub mem: [u8; ROOM],
}
pub const ROOM: usize = 8;
#[derive(Clone, Copy, PartialEq)]
pub enum Act {
    Wrote,
    Failed(u8),
    Done,
}
/// What the sink got.
pub enum Got {
    Delivered,
    Finished,
    Invalid,
    Inner(u8),
}

pub struct Sink(pub *mut Model);
pub struct Write {
    m: *mut Model,
    cap: usize,
    len: usize,
}
fn got(e: Utf8ValidationError<u8>) -> Got {
    match e {
        Utf8ValidationError::InvalidSequence => Got::Invalid,
        Utf8ValidationError::Inner(e) => Got::Inner(e),
    }
}
impl SequenceControl for Sink {
    type Item = u8;
    type Result = Got;
    type Error = Utf8ValidationError<u8>;
    type Writer = Write;
    fn request_writer(self, n: usize) -> Write {
        let more = nd::usize_below(3);
        nd::assume(n <= ROOM && n + more <= ROOM);
        Write { m: self.0, cap: n + more, len: 0 }
    }
    fn cancel(self, e: Self::Error) -> Got {
        got(e)
    }
    fn finish(self) -> Got {
        Got::Finished
    }
}
impl BufferWriter for Write {
    type Segment = [u8];
    type Item = u8;
    type Result = Got;
    type Error = Utf8ValidationError<u8>;
    fn capacity(&self) -> usize {
        self.cap
    }
    fn len(&self) -> usize {
        self.len
    }
    fn as_ptr(&self) -> *const u8 {
        unsafe { (*self.m).mem.as_ptr() }
    }
    fn as_mut_ptr(&mut self) -> *mut u8 {
        unsafe { (*self.m).mem.as_mut_ptr() }
    }
    unsafe fn set_len(&mut self, n: usize) {
        assert!(n <= self.cap, "more than the capacity was written");
        self.len = n;
    }
    fn advance(self) -> Got {
        let m = unsafe { &mut *self.m };
        assert!(m.total + self.len <= m.made, "more was delivered than the source yielded");
        let k = nd::usize_below(ROOM);
        if k < self.len {
            assert!(m.mem[k] == m.all[m.total + k], "a byte was lost, repeated, changed or reordered");
        }
        assert!(valid_up_to(&m.mem, self.len) == self.len, "what was delivered is not valid text");
        m.total += self.len;
        Got::Delivered
    }
    fn cancel(self, e: Self::Error) -> Got {
        got(e)
    }
}

pub struct Src(pub *mut Model);
pub struct Next<'a, C: SequenceControl<Item = u8, Error = u8>>(&'a mut Src, Option<C>);
impl<'a, C: SequenceControl<Item = u8, Error = u8>> Unpin for Next<'a, C> {}
impl<'a, C: SequenceControl<Item = u8, Error = u8>> Future for Next<'a, C> {
    type Output = C::Result;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<C::Result> {
        let m = unsafe { &mut *self.0 .0 };
        if m.waits > 0 {
            m.waits -= 1;
            return Poll::Pending;
        }
        let c = self.1.take().unwrap();
        Poll::Ready(act(m, c))
    }
}
impl SequenceSource for Src {
    type Item = u8;
    type Error = u8;
    type Next<'a, C>
        = Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = u8>;
    fn next<'a, C>(&'a mut self, control: C, hint: usize) -> Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = u8>,
    {
        unsafe { (*self.0).hint = hint };
        Next(self, Some(control))
    }
}
fn act<C: SequenceControl<Item = u8, Error = u8>>(m: &mut Model, control: C) -> C::Result {
    let k = nd::below(4);
    let e = nd::u8();
    if k == 0 {
        m.act = Act::Done;
        return control.finish();
    }
    if k == 1 {
        m.act = Act::Failed(e);
        return control.cancel(e);
    }
    let want = nd::usize_below(m.most + 1);
    let mut w = control.request_writer(want);
    let cap = w.capacity();
    assert!(cap >= want, "less room than requested");
    assert!(w.len() == 0 && w.as_slice().is_empty(), "a fresh writer is not empty");
    let n = nd::usize_below(m.most + 1);
    nd::assume(n <= cap);
    let mut own = [0u8; 4];
    let most = m.most;
    times!(i < most, 4, {
        let x = nd::u8();
        own[i] = x;
        if i < n {
            assert!(w.push_item(x).is_ok(), "an item was refused although there is room");
        }
    });
    assert!(w.len() == n && w.capacity() == cap && w.spare_capacity().len() == cap - n, "the written length is wrong");
    if n == cap {
        assert!(matches!(w.push_item(e), Err(x) if x == e), "more was accepted than there is room");
    }
    let j = nd::usize_below(4);
    if j < n {
        assert!(w.as_slice()[j] == own[j] && w.as_mut_slice()[j] == own[j], "the view of what was written is wrong");
    }
    // some of it may be taken back
    let keep = nd::usize_below(m.most + 1);
    nd::assume(keep <= n);
    w.shrink_to(keep);
    assert!(w.len() == keep, "the written length is wrong");
    if k == 2 {
        let made = m.made;
        times!(i < keep, 4, { m.all[made + i] = own[i] });
        m.made += keep;
        m.act = Act::Wrote;
        w.advance()
    } else {
        m.act = Act::Failed(e);
        w.cancel(e)
    }
}
/// The bytes of `b` from `v` on may begin a character.
fn begins(b: &[u8; 12], v: usize, len: usize) -> bool {
    let n = len - v;
    if n == 0 {
        return true;
    }
    let a = b[v];
    let in_ = |k: usize, lo: u8, hi: u8| n <= k || b[v + k] >= lo && b[v + k] <= hi;
    n == 1 && a >= 0xC2 && a <= 0xF4
        || n == 2
            && (a >= 0xE0 && a <= 0xEF && in_(1, if a == 0xE0 { 0xA0 } else { 0x80 }, if a == 0xED { 0x9F } else { 0xBF })
                || a >= 0xF0 && a <= 0xF4 && in_(1, if a == 0xF0 { 0x90 } else { 0x80 }, if a == 0xF4 { 0x8F } else { 0xBF }))
        || n == 3
            && a >= 0xF0
            && a <= 0xF4
            && in_(1, if a == 0xF0 { 0x90 } else { 0x80 }, if a == 0xF4 { 0x8F } else { 0xBF })
            && in_(2, 0x80, 0xBF)
}
fn valid(b: &[u8; 12], len: usize) -> usize {
    let mut p = 0;
    times!(k < len, 12, {
        let _ = k;
        p += crate::text::char_len(b, len, p);
    });
    p
}

/// One history of calls.
pub fn history(calls: usize, most: usize, waits: u8) {
    let mut model = Model { all: [0; 12], made: 0, total: 0, most, waits: 0, hint: 0, act: Act::Wrote, mem: [0; ROOM] };
    let mp: *mut Model = &mut model;
    let mut v = Utf8Validator::new(Src(mp));
    let mut over = false;
    let (mut ended, mut broken, mut failed, mut split) = (false, false, false, false);
    times!(i < calls, 4, {
        if !over {
            let hint = nd::usize();
            let w = if waits > 0 { nd::below(waits + 1) } else { 0 };
            unsafe { (*mp).waits = w };
            // fresh memory holds anything
            unsafe { (*mp).mem = nd::bytes::<ROOM>() };
            let before = unsafe { (*mp).total };
            let mut f = pin!(v.next(Sink(mp), hint).into_future());
            let mut cx = Context::from_waker(Waker::noop());
            if w > 0 {
                assert!(f.as_mut().poll(&mut cx).is_pending(), "ready before the source was");
            }
            let r = match f.as_mut().poll(&mut cx) {
                Poll::Ready(r) => r,
                Poll::Pending => panic!("suspended although the source was ready"),
            };
            let m = unsafe { &*mp };
            assert!(m.hint == hint, "the size hint was not passed on");
            let up_to = valid(&m.all, m.made);
            match r {
                Got::Delivered => {
                    assert!(m.act == Act::Wrote, "something was delivered without a write");
                    assert!(m.made - m.total <= 3, "more than an incomplete character is held back");
                    split = split || i > 0 && m.total > before && up_to < m.made;
                }
                Got::Finished => {
                    assert!(m.act == Act::Done, "finished before the source");
                    assert!(up_to == m.made, "invalid or incomplete text was accepted");
                    assert!(m.total == m.made, "bytes were never delivered");
                    ended = m.made > 0;
                    over = true;
                }
                Got::Invalid => {
                    match m.act {
                        Act::Wrote => assert!(!begins(&m.all, up_to, m.made), "valid text was rejected"),
                        Act::Done => assert!(up_to < m.made, "valid text was rejected"),
                        Act::Failed(_) => panic!("the source's error was replaced"),
                    }
                    broken = true;
                    over = true;
                }
                Got::Inner(e) => {
                    assert!(m.act == Act::Failed(e), "the source's error was not passed through");
                    assert!(m.total == before, "a failed step delivered something");
                    failed = failed || m.total < m.made;
                }
            }
        }
    });
    reach!(ended, "text was delivered and completed");
    reach!(broken, "invalid text");
    reach!(failed, "failed with an incomplete character pending");
    reach!(split, "text split inside a character");
}

/// Stand-in for the standard validation: the model's.
#[cfg(kani)]
pub fn from_utf8(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
    let n = b.len();
    assert!(n <= ROOM);
    let mut c = [0u8; ROOM];
    times!(k < n, 8, { c[k] = b[k] });
    let v = valid_up_to(&c, n);
    if v == n {
        return Ok(unsafe { std::str::from_utf8_unchecked(b) });
    }
    // how much is wrong for sure: nothing when more bytes could complete it
    let len = wrong(&c, v, n);
    let mut raw = [0usize; 2];
    raw[0] = v;
    raw[1] = if len == 0 { 0 } else { 1 | len << 8 };
    let e: std::str::Utf8Error = unsafe { std::mem::transmute(raw) };
    assert!(e.valid_up_to() == v && e.error_len().unwrap_or(0) == len);
    Err(e)
}
/// The length of the invalid sequence at `v` (0: an incomplete character).
#[cfg(kani)]
fn wrong(b: &[u8; ROOM], v: usize, n: usize) -> usize {
    let mut t = [0u8; 12];
    let mut len = 0;
    // the longest beginning of a character, at least one byte
    times!(k < 3, 4, {
        if v + k < n {
            t[k] = b[v + k];
            if len == k && begins(&t, 0, k + 1) {
                len = k + 1;
            }
        }
    });
    if v + len == n {
        0
    } else if len == 0 {
        1
    } else {
        len
    }
}
