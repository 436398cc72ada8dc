//! C22 Error classification and alternative helpers are faithful.
use crate::{nd, reach};
use parcom_core::{Never, ParseError, RewindSequence, Sequence, UnknownLocation};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{done, fail, Either, EitherBoth};

/// An error of any classification.
#[derive(Clone, Debug)]
pub struct E {
    fatal: bool,
    tag: u8,
}
impl ParseError for E {
    fn should_terminate(&self) -> bool {
        self.fatal
    }
}
fn any() -> E {
    E { fatal: nd::bool(), tag: nd::u8() }
}
fn same(a: &E, b: &E) -> bool {
    a.fatal == b.fatal && a.tag == b.tag
}
fn same_as(x: &impl ParseError, want: bool) {
    assert!(x.should_terminate() == want, "an error is classified as something else than its content");
    let r = &x;
    assert!(r.should_terminate() == want, "a reference is classified as something else than its target");
    assert!((&r).should_terminate() == want, "a reference is classified as something else than its target");
}
fn either<A, B>(first: bool, a: A, b: B) -> Either<A, B> {
    if first {
        Either::First(a)
    } else {
        Either::Last(b)
    }
}
/// 0: first, 1: last, 2: both
fn both<A, B>(k: u8, a: A, b: B) -> EitherBoth<A, B> {
    match k {
        0 => EitherBoth::First(a),
        1 => EitherBoth::Last(b),
        _ => EitherBoth::Both(a, b),
    }
}
fn wrappers() {
    let e = any();
    same_as(&e, e.fatal);
    let m = Miss(e.clone());
    same_as(&m, false);
    assert!(same(&m.0, &e), "wrapping changed the payload");
    let m: Miss<E> = e.clone().into();
    same_as(&m, false);
    assert!(same(&m.0, &e), "wrapping changed the payload");
    let f = Fatal(e.clone());
    same_as(&f, true);
    assert!(same(&f.0, &e), "wrapping changed the payload");
    let f: Fatal<E> = e.clone().into();
    same_as(&f, true);
    assert!(same(&f.0, &e), "wrapping changed the payload");
    same_as(&Some(e.clone()), e.fatal);
    same_as(&None::<E>, false);
    same_as(&Some(&e), e.fatal);
    same_as(&None::<Fatal<E>>, false);
    same_as(&Some(Some(Fatal(0u8))), true);
    same_as(&Some(Miss(0u8)), false);
    reach!(e.fatal, "fatal");
    reach!(!e.fatal, "recoverable");
}
fn alternatives() {
    let (a, b) = (any(), any());
    let first = nd::bool();
    let k = nd::below(3);
    let x = either(first, a.clone(), b.clone());
    let want = if first { a.fatal } else { b.fatal };
    same_as(&x, want);
    same_as(&Some(x), want);
    let y = both(k, a.clone(), b.clone());
    let want = k != 1 && a.fatal || k != 0 && b.fatal;
    same_as(&y, want);
    same_as(&Some(y), want);
    // nested, and of different types
    let (j, c) = (nd::below(3), any());
    let z = either(first, both(k, a.clone(), Miss(0u8)), both(j, Fatal(1u8), c.clone()));
    same_as(&z, if first { k != 1 && a.fatal } else { j != 1 || c.fatal });
    let w = both(k, either(first, a.clone(), b.clone()), Some(c.clone()));
    same_as(&w, k != 1 && (if first { a.fatal } else { b.fatal }) || k != 0 && c.fatal);
    reach!(k == 2 && a.fatal && !b.fatal, "both, the first fatal");
    reach!(k == 2 && !a.fatal && b.fatal, "both, the last fatal");
    reach!(k == 2 && !a.fatal && !b.fatal, "both recoverable");
}
#[derive(Debug, Clone)]
struct A(u8);
#[derive(Debug, Clone)]
struct B(u8);
/// Where a value came from.
struct U(u16);
impl From<A> for U {
    fn from(a: A) -> U {
        U(a.0 as u16)
    }
}
impl From<B> for U {
    fn from(b: B) -> U {
        U(b.0 as u16 | 0x100)
    }
}
fn extraction() {
    let (a, b) = (nd::u8(), nd::u8());
    let first = nd::bool();
    let x = || either(first, A(a), B(b));
    match x().clone() {
        Either::First(v) => assert!(first && v.0 == a, "a copy is another alternative"),
        Either::Last(v) => assert!(!first && v.0 == b, "a copy is another alternative"),
    }
    let u: U = x().unify();
    assert!(u.0 == if first { a as u16 } else { b as u16 | 0x100 }, "unifying gives something else than the present side");
    if first {
        assert!(x().unwrap_first().0 == a, "extraction gives something else than the contained side");
    } else {
        assert!(x().unwrap_last().0 == b, "extraction gives something else than the contained side");
    }
    let k = nd::below(3);
    match both(k, A(a), B(b)).clone() {
        EitherBoth::First(v) => assert!(k == 0 && v.0 == a, "a copy is another alternative"),
        EitherBoth::Last(v) => assert!(k == 1 && v.0 == b, "a copy is another alternative"),
        EitherBoth::Both(v, w) => assert!(k == 2 && v.0 == a && w.0 == b, "a copy is another alternative"),
    }
    reach!(first, "first");
    reach!(!first, "last");
}
fn impossible() {
    let a = nd::u8();
    macro_rules! each {
        ($($t:ty),*) => {$(
            assert!(Either::<u8, $t>::First(a).always_first() == a, "extraction gives something else than the contained side");
            assert!(Either::<$t, u8>::Last(a).always_last() == a, "extraction gives something else than the contained side");
            assert!(EitherBoth::<u8, $t>::First(a).always_first() == a, "extraction gives something else than the contained side");
            assert!(EitherBoth::<$t, u8>::Last(a).always_last() == a, "extraction gives something else than the contained side");
        )*};
    }
    each!(Never, Result<Never, Never>, [Never; 2], Either<Never, Never>, EitherBoth<Never, Never>);
}
fn results() {
    let t = nd::bytes::<3>();
    let n = nd::usize_below(4);
    let e = any();
    let v = nd::u8();
    match done::<&[u8], u8, E>(v, &t[n..]) {
        Ok((got, rest)) => assert!(got == v && rest.len() == 3 - n, "a success changed"),
        Err(_) => panic!("a success became a failure"),
    }
    match fail::<&[u8], u8, Miss<E>>(e.clone(), &t[n..]) {
        Ok(_) => panic!("a failure became a success"),
        Err((got, rest)) => {
            assert!(same(&got.0, &e), "wrapping changed the payload");
            let copy = rest.clone();
            assert!(unsafe { rest.as_ref().unwrap() }.len() == 3 - n, "the location changed");
            assert!(unsafe { rest.unwrap() }.len() == 3 - n, "the location changed");
            let s: &[u8] = &t;
            let back = crate::exec::now(copy.rewind(s.anchor()));
            assert!(back.len() == 3, "rewinding an unknown location does not rewind the input");
        }
    }
    match fail::<&[u8], u8, Fatal<E>>(Fatal(e.clone()), UnknownLocation::from(&t[n..])) {
        Ok(_) => panic!("a failure became a success"),
        Err((got, _)) => assert!(same(&got.0, &e), "wrapping changed the payload"),
    }
    fn _is_sequence<S: Sequence>(_: &S) {}
}

crate::harnesses! {
    [4] fn q_wrappers() { wrappers() }
    [4] fn q_alternatives() { alternatives() }
    [4] fn q_extraction() { extraction() }
    [4] fn q_impossible() { impossible() }
    [4] fn q_results() { results() }
    [4] fn k_empty_array() { let a = nd::u8(); assert!(nd::bool() || Either::<u8, [Never; 0]>::Last([]).always_first() == a) }
}
