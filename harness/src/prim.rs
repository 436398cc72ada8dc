//! The primitive parsers against what they must do.
use crate::comb::{Mode, DELAY, ONCE};
use crate::exec::{drive, now};
use crate::text::*;
use crate::{nd, reach, times};
use parcom_core::primitive::BytesDelta;
use parcom_core::{ParseError, ParserOnce, ParserResult, Parser, RewindSequence, Sequence};
use parcom_parsers::primitive::*;
use parcom_util::error::Miss;

/// Where a sequence is, relative to the whole input.
pub trait At {
    fn at(&self, start: *const u8, size: usize) -> usize;
    fn left(&self) -> usize;
}
impl At for &str {
    fn at(&self, start: *const u8, _: usize) -> usize {
        self.as_ptr() as usize - start as usize
    }
    fn left(&self) -> usize {
        self.len()
    }
}
impl<T> At for &[T] {
    fn at(&self, start: *const u8, size: usize) -> usize {
        (self.as_ptr() as usize - start as usize) / size
    }
    fn left(&self) -> usize {
        self.len()
    }
}

/// The outcome: success with a value and the position, or failure.
pub type Out<T> = Option<(T, usize)>;

pub fn out<S, T>(r: parcom_core::ParseResult<S, T, Miss<()>>, pos: impl Fn(&S) -> usize) -> Out<T> {
    match r {
        Ok((v, s)) => Some((v, pos(&s))),
        Err((e, _)) => {
            assert!(!e.should_terminate(), "a primitive parser failed with a terminating error");
            None
        }
    }
}
/// Runs one form of a parser.
pub fn parse<S: Sequence, P: Parser<S>>(mode: Mode, p: P, s: S) -> ParserResult<S, P> {
    let n = (mode / DELAY) as u8;
    if n > 0 {
        unsafe {
            BUDGET = n;
            PENDINGS = 0;
        }
        let (v, pending) = if mode & 15 == ONCE { drive(p.parse_once(s), n as u32) } else { drive(p.parse(s), n as u32) };
        assert!(pending == unsafe { PENDINGS }, "not suspended exactly when a step of the input is");
        v
    } else if mode == ONCE {
        now(p.parse_once(s))
    } else {
        now(p.parse(s))
    }
}

pub fn any_char_on<S: Sequence<Segment = str, Length = BytesDelta>, const L: usize>(mode: Mode, t: &Text<L>, s: S, pos: impl Fn(&S) -> usize) {
    let got = out(parse(mode, any_char(), s), pos);
    let n = t.first();
    match got {
        None => assert!(n == 0, "any character: failed although a character is left"),
        Some((c, p)) => {
            assert!(n > 0, "any character: succeeded at the end of the input");
            assert!(c as u32 == code(&t.b, 0, n), "any character: returned another character");
            assert!(p == n, "any character: advanced by something else than the character");
        }
    }
    reach!(n == 0, "end");
    reach!(n == 4, "a four byte character");
    reach!(n == 2 && t.len > 2, "more left");
}
pub fn the_char_on<S: Sequence<Segment = str, Length = BytesDelta>, const L: usize>(mode: Mode, t: &Text<L>, s: S, pos: impl Fn(&S) -> usize) {
    let c = nd::char();
    let got = out(parse(mode, the_char(c), s), pos);
    let n = t.first();
    let want = n > 0 && code(&t.b, 0, n) == c as u32;
    match got {
        None => assert!(!want, "given character: failed although the input begins with it"),
        Some(((), p)) => {
            assert!(want, "given character: succeeded on something else");
            assert!(p == n, "given character: advanced by something else than the character");
        }
    }
    reach!(want && n == 3, "a three byte character");
    reach!(!want && n == 2, "another character");
    reach!(n == 0, "end");
}
pub fn atom_str_on<S: Sequence<Segment = str, Length = BytesDelta>, const L: usize, const P: usize>(mode: Mode, owned: bool, t: &Text<L>, s: S, pos: impl Fn(&S) -> usize) {
    let pat = Text::<P>::any();
    let got = if owned {
        out(parse(mode, atom(String::from(pat.str())), s), pos)
    } else {
        out(parse(mode, atom(pat.str()), s), pos)
    };
    let want = begins(&t.b, t.len, &pat.b, pat.len);
    match got {
        None => assert!(!want, "literal: failed although the input begins with it"),
        Some(((), p)) => {
            assert!(want, "literal: succeeded on something else");
            assert!(p == pat.len, "literal: advanced by something else than the literal");
        }
    }
    reach!(want && pat.len == 0 && t.len == 0, "the empty literal at the end");
    reach!(want && pat.len == P, "a full match");
    reach!(!want && pat.len > 0 && t.len >= pat.len && t.b[0] == pat.b[0], "a mismatch inside");
    reach!(!want && pat.len > t.len && t.len > 0, "the input is shorter");
    reach!(pat.len < t.len && !boundary(&t.b, t.len, pat.len), "the literal ends inside a character of the input");
}
pub fn any_item_on<S: Sequence<Segment = [u8], Length = usize>, const L: usize>(mode: Mode, t: &Items<u8, L>, s: S, pos: impl Fn(&S) -> usize) {
    let got = out(parse(mode, any_item(), s), pos);
    match got {
        None => assert!(t.len == 0, "any item: failed although an item is left"),
        Some((c, p)) => {
            assert!(t.len > 0, "any item: succeeded at the end of the input");
            assert!(c == t.b[0], "any item: returned another item");
            assert!(p == 1, "any item: advanced by something else than one item");
        }
    }
    reach!(t.len == 0, "end");
    reach!(t.len > 1, "more left");
}
pub fn the_item_on<S: Sequence<Segment = [u8], Length = usize>, const L: usize>(mode: Mode, t: &Items<u8, L>, s: S, pos: impl Fn(&S) -> usize) {
    let c = nd::u8();
    let got = out(parse(mode, the_item(c), s), pos);
    let want = t.len > 0 && t.b[0] == c;
    match got {
        None => assert!(!want, "given item: failed although the input begins with it"),
        Some(((), p)) => {
            assert!(want, "given item: succeeded on something else");
            assert!(p == 1, "given item: advanced by something else than one item");
        }
    }
    reach!(want && t.len > 1, "match");
    reach!(!want && t.len > 0, "another item");
    reach!(t.len == 0, "end");
}
pub const SLICE: u8 = 0;
pub const VEC: u8 = 1;
pub const ARRAY: u8 = 2;
pub fn atom_items_on<S: Sequence<Segment = [u8], Length = usize>, const L: usize, const P: usize>(mode: Mode, shape: u8, t: &Items<u8, L>, s: S, pos: impl Fn(&S) -> usize) {
    let mut pat = Items::<u8, P>::any();
    if shape == ARRAY {
        pat.len = P;
    }
    // patterns are 'static items, not 'static slices
    let got = match shape {
        SLICE => out(parse(mode, atom(pat.slice()), s), pos),
        VEC => out(parse(mode, atom(Vec::from(pat.slice())), s), pos),
        _ => out(parse(mode, atom(pat.b), s), pos),
    };
    let want = begins(&t.b, t.len, &pat.b, pat.len);
    match got {
        None => assert!(!want, "literal: failed although the input begins with it"),
        Some(((), p)) => {
            assert!(want, "literal: succeeded on something else");
            assert!(p == pat.len, "literal: advanced by something else than the literal");
        }
    }
    reach!(shape == ARRAY || want && pat.len == 0 && t.len == 0, "the empty literal at the end");
    reach!(want && pat.len == P, "a full match");
    reach!(!want && pat.len > 0 && t.len >= pat.len && t.b[0] == pat.b[0], "a mismatch inside");
    reach!(!want && pat.len > t.len && t.len > 0, "the input is shorter");
}

/// Items that are equal without being the same.
#[derive(Clone, Copy)]
pub struct Keyed {
    pub key: u8,
    pub tag: u8,
}
impl PartialEq for Keyed {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
pub fn keyed<const L: usize>() -> Items<Keyed, L> {
    let mut b = [Keyed { key: 0, tag: 0 }; L];
    times!(i < L, 8, { b[i] = Keyed { key: nd::u8(), tag: nd::u8() } });
    Items { b, len: nd::usize_below(L + 1) }
}
pub fn keyed_on(mode: Mode) {
    let t = keyed::<3>();
    let s = t.slice();
    let pos = |r: &&[Keyed]| 3 - 3 + (r.as_ptr() as usize - t.b.as_ptr() as usize) / 2;
    match out(parse(mode, any_item(), s), pos) {
        None => assert!(t.len == 0, "any item: failed although an item is left"),
        Some((c, p)) => assert!(t.len > 0 && c.key == t.b[0].key && c.tag == t.b[0].tag && p == 1, "any item: not the first item"),
    }
    let pat = keyed::<2>();
    let want = begins(&t.b, t.len, &pat.b, pat.len);
    match out(parse(mode, atom(pat.slice()), s), pos) {
        None => assert!(!want, "literal: failed although the input begins with it"),
        Some(((), p)) => assert!(want && p == pat.len, "literal: wrong match"),
    }
    let one = Keyed { key: nd::u8(), tag: nd::u8() };
    let want1 = t.len > 0 && t.b[0].key == one.key;
    match out(parse(mode, the_item(one), s), pos) {
        None => assert!(!want1, "given item: failed although the input begins with it"),
        Some(((), p)) => assert!(want1 && p == 1, "given item: wrong match"),
    }
    reach!(want && pat.len == 2 && pat.b[0].tag != t.b[0].tag, "equal, not identical");
    reach!(want1 && one.tag != t.b[0].tag, "equal item, not identical");
}
/// On the contiguous text itself.
pub fn whole<const L: usize>(t: &Text<L>) -> impl Fn(&&str) -> usize + '_ {
    move |r| {
        let p = r.at(t.b.as_ptr(), 1);
        assert!(p <= t.len && r.left() == t.len - p, "the rest is not a suffix of the input");
        p
    }
}
pub fn whole_items<const L: usize>(t: &Items<u8, L>) -> impl Fn(&&[u8]) -> usize + '_ {
    move |r| {
        let p = r.at(t.b.as_ptr(), 1);
        assert!(p <= t.len && r.left() == t.len - p, "the rest is not a suffix of the input");
        p
    }
}
pub fn cut<const L: usize>(t: &Text<L>, max: usize) -> Cut<'_, str> {
    Cut::any(t.str(), max, |i| boundary(&t.b, t.len, i))
}
pub fn cut_items<const L: usize>(t: &Items<u8, L>, max: usize) -> Cut<'_, [u8]> {
    Cut::any(t.slice(), max, |_| true)
}
pub fn slept() {
    reach!(unsafe { PENDINGS } == 2, "suspended");
}
