//! Histories over in-memory sequences, plain and measured.
use crate::exec::now;
use crate::text::*;
use crate::{nd, reach, times};
use parcom_core::measured::{Measureable, Meter, Metrics};
use parcom_core::primitive::BytesDelta;
use parcom_core::{MeasuredSequence, PeekableSequence, RewindSequence, SegmentStream, Sequence};

/// What is being read: its units, and whether a piece of it is the one at a position.
pub trait Model {
    type Seg: ?Sized;
    type Len;
    fn units(&self) -> usize;
    fn boundary(&self, i: usize) -> bool;
    fn length(n: usize) -> Self::Len;
    /// asserts that the piece is the content at `at`; returns its units
    fn same(&self, p: &Self::Seg, at: usize) -> usize;
}
impl<const L: usize> Model for Text<L> {
    type Seg = str;
    type Len = BytesDelta;
    fn units(&self) -> usize {
        self.len
    }
    fn boundary(&self, i: usize) -> bool {
        boundary(&self.b, self.len, i)
    }
    fn length(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn same(&self, p: &str, at: usize) -> usize {
        let n = p.len();
        assert!(at + n <= self.len, "the view is longer than what remains");
        let p = p.as_bytes();
        times!(i < n, 8, { assert!(p[i] == self.b[at + i], "the view shows something else than the input") });
        n
    }
}
impl<T: Copy + PartialEq, const L: usize> Model for Items<T, L> {
    type Seg = [T];
    type Len = usize;
    fn units(&self) -> usize {
        self.len
    }
    fn boundary(&self, _: usize) -> bool {
        true
    }
    fn length(n: usize) -> usize {
        n
    }
    fn same(&self, p: &[T], at: usize) -> usize {
        let n = p.len();
        assert!(at + n <= self.len, "the view is longer than what remains");
        times!(i < n, 8, { assert!(p[i] == self.b[at + i], "the view shows something else than the input") });
        n
    }
}
/// Any number of items without a size.
pub struct Units(pub usize);
impl Model for Units {
    type Seg = [()];
    type Len = usize;
    fn units(&self) -> usize {
        self.0
    }
    fn boundary(&self, _: usize) -> bool {
        true
    }
    fn length(n: usize) -> usize {
        n
    }
    fn same(&self, p: &[()], at: usize) -> usize {
        assert!(at + p.len() <= self.0, "the view is longer than what remains");
        p.len()
    }
}
impl Units {
    pub fn any() -> Self {
        // at most isize::MAX so that positions stay in range
        Units(nd::usize() >> 1)
    }
    pub fn slice(&self) -> &[()] {
        unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), self.0) }
    }
}

/// The segments of `s` are the input from `at` on, and then end.
pub fn view<M: Model, S: Sequence<Segment = M::Seg, Length = M::Len>>(m: &M, s: &mut S, at: usize) {
    let mut p = at;
    let mut st = s.segments();
    let mut ended = false;
    times!(i < 3, 8, {
        let _ = i;
        if !ended {
            match now(st.next(M::length(1))) {
                Some(seg) => p += m.same(seg, p),
                None => ended = true,
            }
        }
    });
    assert!(ended, "the segments do not end");
    assert!(p == m.units(), "the segments end before the input does");
}

/// A distance: within the input at a boundary, or anything beyond.
pub fn distance<M: Model>(m: &M, at: usize) -> usize {
    let d = nd::usize();
    nd::assume(d > m.units() - at || m.boundary(at + d));
    d
}

pub fn drop_all(at: usize, d: usize, len: usize) -> usize {
    if d > len - at {
        len
    } else {
        at + d
    }
}

/// advance, anchor and rewind in any order; the views after each.
pub fn history<M: Model, S>(m: &M, s: S, steps: usize)
where
    S: Sequence<Segment = M::Seg, Length = M::Len> + RewindSequence,
    S: PeekableSequence,
{
    let len = m.units();
    let mut s = s;
    let mut at = 0;
    // anchors of two kinds: one taken at the start, one taken last
    let mut first = Some(s.anchor());
    let mut kept = Some((s.anchor(), 0));
    let (mut beyond, mut back, mut exact, mut home) = (false, false, false, false);
    view(m, &mut s, 0);
    times!(i < steps, 8, {
        let _ = i;
        match nd::below(4) {
            0 => {
                let d = distance(m, at);
                beyond = beyond || d > len - at;
                exact = exact || d == len - at && d > 0;
                at = drop_all(at, d, len);
                s = now(s.advance(M::length(d)));
            }
            1 => kept = Some((s.anchor(), at)),
            2 => {
                if let Some((a, p)) = kept.take() {
                    back = back || p < at && p > 0;
                    at = p;
                    s = now(s.rewind(a));
                }
            }
            _ => {
                if let Some(a) = first.take() {
                    home = home || beyond && at == len && len > 0;
                    at = 0;
                    kept = None;
                    s = now(s.rewind(a));
                }
            }
        }
        view(m, &mut s, at);
    });
    reach!(beyond, "beyond the end");
    reach!(exact, "exactly to the end");
    reach!(home, "back from beyond the end");
    reach!(back, "back to somewhere in between");
    // a peeked copy is independent
    let d = distance(m, at);
    {
        let mut p = s.peek();
        view(m, &mut p, at);
        let mut p = now(p.advance(M::length(d)));
        view(m, &mut p, drop_all(at, d, len));
    }
    view(m, &mut s, at);
}

/// A meter that remembers everything it was shown: any other is a function of this.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Seen<const K: usize> {
    pub b: [u8; K],
    pub n: usize,
}
impl<const K: usize> Default for Seen<K> {
    fn default() -> Self {
        Seen { b: [0; K], n: 0 }
    }
}
impl<const K: usize> Seen<K> {
    fn more(mut self, s: &[u8]) -> Self {
        times!(i < s.len(), 8, {
            assert!(self.n < K, "the meter is shown more than there is");
            self.b[self.n] = s[i];
            self.n += 1;
        });
        self
    }
}
/// Meter and metrics differ.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Saw<const K: usize>(pub Seen<K>);
impl<const K: usize> Meter<str> for Seen<K> {
    type Metrics = Saw<K>;
    fn advance(self, s: &str) -> Self {
        self.more(s.as_bytes())
    }
    fn metrics(&self) -> Saw<K> {
        Saw(*self)
    }
}
impl<const K: usize> Metrics<str> for Saw<K> {
    type Meter = Seen<K>;
}
impl<const K: usize> Meter<[u8]> for Seen<K> {
    type Metrics = Saw<K>;
    fn advance(self, s: &[u8]) -> Self {
        self.more(s)
    }
    fn metrics(&self) -> Saw<K> {
        Saw(*self)
    }
}
impl<const K: usize> Metrics<[u8]> for Saw<K> {
    type Meter = Seen<K>;
}

/// What the metrics must be at each position.
pub fn metered<M: Model, S>(m: &M, s: S, steps: usize, check: impl Fn(S::Metrics, usize))
where
    S: MeasuredSequence<Segment = M::Seg, Length = M::Len> + RewindSequence + Clone,
{
    let len = m.units();
    let mut s = s;
    let mut at = 0;
    let mut kept = Some((s.anchor(), 0));
    let mut other: Option<(S, usize)> = None;
    let (mut beyond, mut back, mut twice, mut moved) = (false, false, false, 0);
    check(s.metrics(), 0);
    times!(i < steps, 8, {
        let _ = i;
        match nd::below(4) {
            0 => {
                let d = distance(m, at);
                beyond = beyond || d > len - at;
                let to = drop_all(at, d, len);
                if to > at {
                    moved += 1;
                }
                at = to;
                s = now(s.advance(M::length(d)));
            }
            1 => kept = Some((s.anchor(), at)),
            2 => {
                if let Some((a, p)) = kept.take() {
                    back = back || p < at && p > 0;
                    at = p;
                    s = now(s.rewind(a));
                }
            }
            _ => match other.take() {
                None => other = Some((s.clone(), at)),
                Some((o, p)) => {
                    twice = twice || p != at;
                    s = o;
                    at = p;
                    kept = None;
                }
            },
        }
        check(s.metrics(), at);
        view(m, &mut s, at);
    });
    reach!(beyond, "beyond the end");
    reach!(back, "back to somewhere in between");
    reach!(twice, "a copy that stayed behind");
    reach!(moved > 1, "consumed in pieces");
}

/// The unit counting meter that comes with slices.
pub fn counted(want: usize) -> impl Fn(usize, usize) {
    move |got, at| assert!(got == want + at, "the metrics do not count the consumed items")
}
pub fn seen<const K: usize>(start: Seen<K>, b: &[u8]) -> impl Fn(Saw<K>, usize) + '_ {
    move |got, at| {
        let Saw(g) = got;
        assert!(g.n == start.n + at, "the metrics do not measure the consumed input");
        times!(i < g.n, 8, {
            let want = if i < start.n { start.b[i] } else { b[i - start.n] };
            assert!(g.b[i] == want, "the metrics measure something else than the consumed input");
        });
    }
}
/// A meter that has already seen one thing.
pub fn started<const K: usize>() -> Seen<K> {
    let mut s = Seen::<K>::default();
    s.b[0] = nd::u8();
    s.n = 1;
    s
}
pub fn measure_is_length() {
    let t = Items::<u8, 4>::any();
    let n: usize = t.slice().measure();
    assert!(n == t.len, "a slice measures something else than its length");
}
