//! Line and column locations.
use crate::text::*;
use crate::{nd, reach, times};
use parcom_core::measured::{IntoMeasured, Meter};
use parcom_core::primitive::BytesDelta;
use parcom_core::{MeasuredSequence, Sequence};
use parcom_metrics::end_of_line::{CR, CRLF, LF};
use parcom_metrics::{EndOfLine, LineColumn, LineColumnMeter};
use std::cmp::Ordering;

pub trait Style: EndOfLine {
    /// a terminator ends with the byte at `i`
    fn ends(b: &[u8], i: usize) -> bool;
}
impl Style for LF {
    fn ends(b: &[u8], i: usize) -> bool {
        b[i] == b'\n'
    }
}
impl Style for CR {
    fn ends(b: &[u8], i: usize) -> bool {
        b[i] == b'\r'
    }
}
impl Style for CRLF {
    fn ends(b: &[u8], i: usize) -> bool {
        b[i] == b'\n' && i > 0 && b[i - 1] == b'\r'
    }
}

/// Characters, started lines and length of the last line of `b[..len]`.
pub fn location<E: Style>(b: &[u8], len: usize) -> (usize, usize, usize) {
    let (mut chars, mut lines, mut column) = (0, 0, 0);
    if len > 0 {
        lines = 1;
    }
    times!(i < len, 8, {
        if b[i] & 0xC0 != 0x80 {
            chars += 1;
            column += 1;
        }
        // a terminator at the very end does not start another line yet
        if E::ends(b, i) && i + 1 < len {
            lines += 1;
            column = 0;
        }
    });
    (chars, lines, column)
}
fn is<E: EndOfLine>(l: LineColumn<E>, want: (usize, usize, usize)) {
    assert!(l.total_count == want.0, "the number of characters is wrong");
    assert!(l.line == want.1, "the number of lines is wrong");
    assert!(l.column == want.2, "the length of the last line is wrong");
}
/// The text fed in three chunks; the report after each.
pub fn counted<E: Style, const L: usize>() {
    let t = Text::<L>::any();
    let s = t.str();
    let i = nd::usize_below(L + 1);
    let j = nd::usize_below(L + 1);
    nd::assume(i <= j && j <= t.len && boundary(&t.b, t.len, i) && boundary(&t.b, t.len, j));
    let m = LineColumnMeter::<E>::default();
    is(m.metrics(), (0, 0, 0));
    let m = m.advance(&s[..i]);
    is(m.metrics(), location::<E>(&t.b, i));
    let m = m.advance(&s[i..j]);
    is(m.metrics(), location::<E>(&t.b, j));
    let m = m.advance(&s[j..]);
    is(m.metrics(), location::<E>(&t.b, t.len));
    reach!(i > 0 && i < t.len && E::ends(&t.b, i) && t.b[i - 1] == b'\r', "cut before the last character of a terminator");
    reach!(t.len > 2 && t.b[0] == b'\r' && t.b[1] == b'\r' && E::ends(&t.b, 2), "returns before a terminator");
    reach!(t.len > 1 && E::ends(&t.b, t.len - 1), "a terminator at the end");
}
/// The returns cover does not fit every style.
pub fn counted_cr<const L: usize>() {
    let t = Text::<L>::any();
    let s = t.str();
    let i = nd::usize_below(L + 1);
    nd::assume(i <= t.len && boundary(&t.b, t.len, i));
    let m = LineColumnMeter::<CR>::default();
    is(m.metrics(), (0, 0, 0));
    let m = m.advance(&s[..i]);
    is(m.metrics(), location::<CR>(&t.b, i));
    let m = m.advance(&s[i..]);
    is(m.metrics(), location::<CR>(&t.b, t.len));
    reach!(i > 0 && i < t.len && t.b[i - 1] == b'\r' && t.b[i] == b'\n', "cut inside a return and line feed");
    reach!(t.len > 1 && t.b[0] == b'\r' && t.b[1] == b'\r', "empty lines");
}
/// Through a measured sequence.
pub fn measured<E: Style, const L: usize>() {
    let t = Text::<L>::any();
    let i = nd::usize_below(L + 1);
    nd::assume(i <= t.len && boundary(&t.b, t.len, i));
    let s = t.str().into_measured::<LineColumn<E>>();
    is(s.metrics(), (0, 0, 0));
    let s = crate::exec::now(s.advance(BytesDelta::from_bytes(i)));
    is(s.metrics(), location::<E>(&t.b, i));
    let s = crate::exec::now(s.advance(BytesDelta::from_bytes(t.len - i)));
    is(s.metrics(), location::<E>(&t.b, t.len));
    reach!(i > 0 && i < t.len && E::ends(&t.b, t.len - 1), "in two steps");
}

fn any_location<E: EndOfLine>() -> LineColumn<E> {
    let mut l = LineColumn::<E>::default();
    l.total_count = nd::usize();
    l.line = nd::usize();
    l.column = nd::usize();
    l
}
/// The laws of a total order, for any three locations.
pub fn order<E: EndOfLine>() {
    let (a, b, c) = (any_location::<E>(), any_location::<E>(), any_location::<E>());
    let same = a.total_count == b.total_count && a.line == b.line && a.column == b.column;
    assert!((a == b) == same && (a != b) == !same, "equality does not compare all of a location");
    let o = a.cmp(&b);
    assert!((o == Ordering::Equal) == (a == b), "the order is inconsistent with equality");
    assert!(a.partial_cmp(&b) == Some(o), "partial and total comparison disagree");
    assert!(b.cmp(&a) == o.reverse(), "the order is not antisymmetric");
    assert!(a.cmp(&a) == Ordering::Equal && a == a, "the order is not reflexive");
    if o != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
        assert!(a.cmp(&c) != Ordering::Greater, "the order is not transitive");
    }
    assert!((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater), "operators disagree with the order");
    assert!((a > b) == (o == Ordering::Greater) && (a >= b) == (o != Ordering::Less), "operators disagree with the order");
    let d = a.clone();
    assert!(d == a && d.cmp(&a) == Ordering::Equal, "a clone is another location");
    let m = a.clone().max(b.clone());
    let n = a.clone().min(b.clone());
    assert!(m >= a && m >= b && (m == a || m == b) && n <= a && n <= b && (n == a || n == b), "max or min");
    reach!(o == Ordering::Less && b.cmp(&c) == Ordering::Less, "a chain");
    reach!(same, "equal");
    reach!(a.total_count == b.total_count && !same, "the same count elsewhere");
}
/// Locations of one text grow.
pub fn grows<E: Style, const L: usize>() {
    let t = Text::<L>::any();
    let s = t.str();
    let i = nd::usize_below(L + 1);
    let j = nd::usize_below(L + 1);
    nd::assume(i <= j && j <= t.len && boundary(&t.b, t.len, i) && boundary(&t.b, t.len, j));
    let m = LineColumnMeter::<E>::default().advance(&s[..i]);
    let a = m.metrics();
    let b = m.advance(&s[i..j]).metrics();
    assert!(a.cmp(&b) != Ordering::Greater && a <= b, "a location further on compares less");
    assert!((i == j) == (a == b), "moving on and staying are confused");
    reach!(i < j && a.line < b.line && a.column > b.column, "another line");
}
