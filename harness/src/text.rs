//! Symbolic text and symbolically cut inputs.
use crate::nd;
use parcom_core::primitive::BytesDelta;
use parcom_core::{RewindSequence, SegmentStream, Sequence, SequenceSegment};

/// How many bytes of `b[i..len]` form one well-formed character (0: none).
/// Straight from the table of well-formed byte sequences in the Unicode standard.
pub fn char_len(b: &[u8], len: usize, i: usize) -> usize {
    if i >= len {
        return 0;
    }
    let a = b[i];
    let at = |k: usize, lo: u8, hi: u8| i + k < len && b[i + k] >= lo && b[i + k] <= hi;
    if a < 0x80 {
        1
    } else if a >= 0xC2 && a <= 0xDF && at(1, 0x80, 0xBF) {
        2
    } else if a >= 0xE0
        && a <= 0xEF
        && at(1, if a == 0xE0 { 0xA0 } else { 0x80 }, if a == 0xED { 0x9F } else { 0xBF })
        && at(2, 0x80, 0xBF)
    {
        3
    } else if a >= 0xF0
        && a <= 0xF4
        && at(1, if a == 0xF0 { 0x90 } else { 0x80 }, if a == 0xF4 { 0x8F } else { 0xBF })
        && at(2, 0x80, 0xBF)
        && at(3, 0x80, 0xBF)
    {
        4
    } else {
        0
    }
}
/// The length of the longest well-formed prefix.
pub fn valid_up_to(b: &[u8], len: usize) -> usize {
    let mut p = 0;
    times!(k < len, 8, {
        let _ = k;
        p += char_len(b, len, p);
    });
    p
}
pub fn boundary(b: &[u8], len: usize, i: usize) -> bool {
    i == 0 || i == len || (i < len && b[i] & 0xC0 != 0x80)
}
/// The code point of the character of `n` bytes at `i`.
pub fn code(b: &[u8], i: usize, n: usize) -> u32 {
    let c = |k: usize| (b[i + k] & 0x3F) as u32;
    match n {
        1 => b[i] as u32,
        2 => ((b[i] & 0x1F) as u32) << 6 | c(1),
        3 => ((b[i] & 0x0F) as u32) << 12 | c(1) << 6 | c(2),
        _ => ((b[i] & 0x07) as u32) << 18 | c(1) << 12 | c(2) << 6 | c(3),
    }
}

/// Any valid UTF-8 text of up to `L` bytes.
pub struct Text<const L: usize> {
    pub b: [u8; L],
    pub len: usize,
}
impl<const L: usize> Text<L> {
    pub fn any() -> Self {
        let b = nd::bytes::<L>();
        let len = nd::usize_below(L + 1);
        nd::assume(valid_up_to(&b, len) == len);
        Text { b, len }
    }
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(self.b.get_unchecked(..self.len)) }
    }
    pub fn first(&self) -> usize {
        char_len(&self.b, self.len, 0)
    }
}
/// Any items, up to `L` of them.
pub struct Items<T, const L: usize> {
    pub b: [T; L],
    pub len: usize,
}
impl<T, const L: usize> Items<T, L> {
    pub fn slice(&self) -> &[T] {
        &self.b[..self.len]
    }
}
impl<const L: usize> Items<u8, L> {
    pub fn any() -> Self {
        Items { b: nd::bytes::<L>(), len: nd::usize_below(L + 1) }
    }
}
/// `a` begins with `p`.
pub fn begins<T: PartialEq>(a: &[T], alen: usize, p: &[T], plen: usize) -> bool {
    let mut same = plen <= alen;
    times!(i < plen, 8, {
        same = same && i < alen && a[i] == p[i];
    });
    same
}

/// The piece of a segment type.
pub trait Piece: SequenceSegment {
    fn piece(&self, a: usize, b: usize) -> &Self;
    fn units(&self) -> usize;
    fn count(l: Self::Length) -> usize;
}
impl Piece for str {
    fn piece(&self, a: usize, b: usize) -> &str {
        unsafe { self.get_unchecked(a..b) }
    }
    fn units(&self) -> usize {
        str::len(self)
    }
    fn count(l: BytesDelta) -> usize {
        l.to_bytes()
    }
}
impl<T> Piece for [T] {
    fn piece(&self, a: usize, b: usize) -> &[T] {
        unsafe { self.get_unchecked(a..b) }
    }
    fn units(&self) -> usize {
        <[T]>::len(self)
    }
    fn count(l: usize) -> usize {
        l
    }
}

/// A contiguous input presented in up to 4 consecutive segments, any of them empty, or none.
pub struct Cut<'a, T: ?Sized> {
    data: &'a T,
    at: [usize; 3],
    n: usize,
    pub pos: usize,
}
impl<'a, T: ?Sized + Piece> Cut<'a, T> {
    pub fn any(data: &'a T, max: usize, boundary: impl Fn(usize) -> bool) -> Self {
        let len = data.units();
        let n = nd::usize_below(max + 1);
        nd::assume(n > 0 || len == 0);
        let mut at = [len; 3];
        let mut last = 0;
        times!(i < max - 1, 8, {
            if i + 1 < n {
                at[i] = nd::usize_below(len + 1);
                nd::assume(at[i] >= last && boundary(at[i]));
                last = at[i];
            }
        });
        Cut { data, at, n, pos: 0 }
    }
}
pub struct CutSegments<'b, T: ?Sized> {
    data: &'b T,
    at: [usize; 3],
    n: usize,
    pos: usize,
    i: usize,
}
impl<'a, T: ?Sized + Piece> SegmentStream for CutSegments<'a, T> {
    type Length = T::Length;
    type Segment = T;
    type Next<'b>
        = std::future::Ready<Option<&'b T>>
    where
        Self: 'b;
    fn next(&mut self, _: T::Length) -> Self::Next<'_> {
        let i = self.i;
        if i >= self.n {
            return std::future::ready(None);
        }
        self.i = i + 1;
        let len = self.data.units();
        let lo = if i == 0 { 0 } else { self.at[i - 1] };
        let hi = if i + 1 == self.n || i >= 3 { len } else { self.at[i] };
        std::future::ready(Some(self.data.piece(lo.max(self.pos), hi.max(self.pos))))
    }
}
impl<'a, T: ?Sized + Piece> Sequence for Cut<'a, T> {
    type Length = T::Length;
    type Segment = T;
    type Segments<'b>
        = CutSegments<'b, T>
    where
        Self: 'b;
    type Advance = std::future::Ready<Self>;
    fn segments(&mut self) -> Self::Segments<'_> {
        CutSegments { data: self.data, at: self.at, n: self.n, pos: self.pos, i: 0 }
    }
    fn advance(mut self, delta: T::Length) -> Self::Advance {
        self.pos = (self.pos + T::count(delta)).min(self.data.units());
        std::future::ready(self)
    }
}
impl<'a, T: ?Sized + Piece> RewindSequence for Cut<'a, T> {
    type Anchor = usize;
    type Rewind = std::future::Ready<Self>;
    fn anchor(&self) -> usize {
        self.pos
    }
    fn rewind(mut self, a: usize) -> Self::Rewind {
        self.pos = a;
        std::future::ready(self)
    }
}

/// The same input, whose steps may suspend: up to `BUDGET` times in all.
pub struct Slow<'a, T: ?Sized>(pub Cut<'a, T>);
pub static mut BUDGET: u8 = 0;
/// suspensions so far
pub static mut PENDINGS: u32 = 0;
pub struct Later<T> {
    left: u8,
    v: Option<T>,
}
impl<T> Unpin for Later<T> {}
fn later<T>(v: T) -> Later<T> {
    unsafe {
        let left = nd::below(BUDGET + 1);
        BUDGET -= left;
        Later { left, v: Some(v) }
    }
}
impl<T> std::future::Future for Later<T> {
    type Output = T;
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<T> {
        if self.left > 0 {
            self.left -= 1;
            unsafe { PENDINGS += 1 };
            return std::task::Poll::Pending;
        }
        std::task::Poll::Ready(self.v.take().expect("a completed step was polled again"))
    }
}
pub struct SlowSegments<'b, T: ?Sized>(CutSegments<'b, T>);
impl<'a, T: ?Sized + Piece> SegmentStream for SlowSegments<'a, T> {
    type Length = T::Length;
    type Segment = T;
    type Next<'b>
        = Later<Option<&'b T>>
    where
        Self: 'b;
    fn next(&mut self, n: T::Length) -> Self::Next<'_> {
        later(self.0.next(n).into_inner())
    }
}
impl<'a, T: ?Sized + Piece> Sequence for Slow<'a, T> {
    type Length = T::Length;
    type Segment = T;
    type Segments<'b>
        = SlowSegments<'b, T>
    where
        Self: 'b;
    type Advance = Later<Self>;
    fn segments(&mut self) -> Self::Segments<'_> {
        SlowSegments(self.0.segments())
    }
    fn advance(self, delta: T::Length) -> Self::Advance {
        later(Slow(self.0.advance(delta).into_inner()))
    }
}
impl<'a, T: ?Sized + Piece> RewindSequence for Slow<'a, T> {
    type Anchor = usize;
    type Rewind = Later<Self>;
    fn anchor(&self) -> usize {
        self.0.pos
    }
    fn rewind(self, a: usize) -> Self::Rewind {
        later(Slow(self.0.rewind(a).into_inner()))
    }
}
