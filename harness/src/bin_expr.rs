//! Binary expressions over scripted terms and operators.
use crate::comb::{run, tape, Mode, AGAIN, FAT, ONCE, POS, VAL};
use crate::tape::*;

use crate::{nd, reach, times};
use parcom_internals::ShortVec;
use parcom_core::{ParseError, ParseResult, Parser, ParserOnce, UnknownLocation};
use parcom_parsers::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_util::Either;
use std::cell::Cell;
use std::future::Future;

/// Operators a script can hold.
pub const K: usize = 8;

/// What the calls (term, op, term, op, ...) answer, and what was built.
pub struct X {
    pub kind: [u8; 2 * K + 2],
    pub adv: [u8; 2 * K + 2],
    pub prec: [u8; K],
    pub left: [bool; K],
    pub limit: usize,
    pub kinds: u8,
    pub n: Cell<usize>,
    /// where the next call must start: input is only given back at the end
    pub pos: Cell<u32>,
    pub wrong_pos: Cell<bool>,
    pub wrong_turn: Cell<bool>,
}

/// What was built (global: operators and trees are to be small values).
struct Log {
    /// per operator, the terms its tree covers: 4 bits first, 4 bits last
    span: u64,
    joined: u32,
    disorder: bool,
}
static mut LOG: Log = Log { span: 0, joined: 0, disorder: false };
fn log() -> &'static mut Log {
    unsafe { &mut *(&raw mut LOG) }
}
impl X {
    /// Up to `k` operators.  Equal precedences have equal associativities.
    pub fn any(k: usize, kinds: u8, rising: usize, pos: u32) -> Self {
        let limit = 2 * k + 2;
        *log() = Log { span: 0, joined: 0, disorder: false };
        let mut x = X {
            kind: [MISS; 2 * K + 2],
            adv: [0; 2 * K + 2],
            prec: [0; K],
            left: [true; K],
            limit,
            kinds,
            n: Cell::new(0),
            pos: Cell::new(pos),
            wrong_pos: Cell::new(false),
            wrong_turn: Cell::new(false),
        };
        times!(i < limit, 18, {
            x.kind[i] = if kinds > 1 {
                nd::below(kinds)
            } else if i + 1 < limit {
                OK
            } else {
                MISS
            };
            x.adv[i] = nd::u8();
        });
        nd::assume(x.kind[limit - 1] != OK);
        times!(i < k, 8, {
            if rising > i {
                // known precedences, so that the stack's depth is known
                x.prec[i] = 10 * (i as u8 + 1);
            } else {
                x.prec[i] = nd::u8();
                x.left[i] = nd::bool();
                consistent(&x, i);
            }
        });
        x
    }
    pub fn reset(&self, pos: u32) {
        self.n.set(0);
        self.pos.set(pos);
        *log() = Log { span: 0, joined: 0, disorder: false };
    }
    fn call(&self, op: bool, at: u32) -> (usize, u8, u32) {
        let i = self.n.get();
        assert!(i < self.limit, "a sub-parser was called after the parse had to stop");
        if (i % 2 == 1) != op {
            self.wrong_turn.set(true);
        }
        if self.pos.get() != at {
            self.wrong_pos.set(true);
        }
        self.n.set(i + 1);
        let to = at + self.adv[i] as u32;
        self.pos.set(to);
        // the last call must fail: known here, not only assumed, so that the unrolling ends
        (i, if i + 1 == self.limit && self.kinds > 1 { if self.kind[i] == FATAL { FATAL } else { MISS } } else { self.kind[i] }, to)
    }
}

/// Precedence 255 stands for `usize::MAX`.
pub struct Op {
    i: u8,
    prec: u8,
    left: bool,
}
impl Operator for Op {
    fn precedence(&self) -> usize {
        if self.prec == 255 {
            usize::MAX
        } else {
            self.prec as usize
        }
    }
    fn associativity(&self) -> Associativity {
        if self.left {
            Associativity::Left
        } else {
            Associativity::Right
        }
    }
}
/// A tree over the terms `lo..=hi`.
pub struct Tree {
    lo: u8,
    hi: u8,
}
pub struct Term(u8);
impl From<Term> for Tree {
    fn from(t: Term) -> Self {
        Tree { lo: t.0, hi: t.0 }
    }
}
impl From<(Tree, Op, Tree)> for Tree {
    fn from((l, op, r): (Tree, Op, Tree)) -> Self {
        let x = log();
        if l.hi != op.i || r.lo != op.i + 1 || x.joined >> op.i & 1 != 0 {
            x.disorder = true;
        }
        x.joined |= 1 << op.i;
        x.span |= (l.lo as u64 | (r.hi as u64) << 4) << (8 * op.i as u32);
        Tree { lo: l.lo, hi: r.hi }
    }
}

#[derive(Clone, Copy)]
pub struct TermP<'e>(&'e X);
#[derive(Clone, Copy)]
pub struct OpP<'e>(&'e X);

fn answer<'e, T>(t: Tape<'e>, limit: usize, c: (usize, u8, u32), v: impl FnOnce(u8) -> T) -> Delayed<'e, ParseResult<Tape<'e>, T, Er>> {
    let env = t.env;
    let (i, kind, to) = c;
    let rest = tape(env, to);
    env.delay(if i + 1 < limit && kind == OK {
        Ok((v((i / 2) as u8), rest))
    } else {
        Err((Er { v: i as u8, fatal: kind == FATAL }, UnknownLocation::from(rest)))
    })
}
impl<'e> ParserOnce<Tape<'e>> for TermP<'e> {
    type Output = Term;
    type Error = Er;
    fn parse_once(self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, Term, Er>> {
        let c = self.0.call(false, t.pos);
        answer(t, self.0.limit, c, Term)
    }
}
impl<'e> Parser<Tape<'e>> for TermP<'e> {
    fn parse(&self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, Term, Er>> {
        let c = self.0.call(false, t.pos);
        answer(t, self.0.limit, c, Term)
    }
}
impl<'e> ParserOnce<Tape<'e>> for OpP<'e> {
    type Output = Op;
    type Error = Er;
    fn parse_once(self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, Op, Er>> {
        let x = self.0;
        let c = x.call(true, t.pos);
        answer(t, x.limit, c, |i| Op { i, prec: x.prec[i as usize], left: x.left[i as usize] })
    }
}
impl<'e> Parser<Tape<'e>> for OpP<'e> {
    fn parse(&self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, Op, Er>> {
        let x = self.0;
        let c = x.call(true, t.pos);
        answer(t, x.limit, c, |i| Op { i, prec: x.prec[i as usize], left: x.left[i as usize] })
    }
}

/// `a` belongs below its neighbour `b` on the left (so `b`'s operand swallows `a`).
fn tighter(x: &X, a: usize, b: usize) -> bool {
    x.prec[a] > x.prec[b] || (x.prec[a] == x.prec[b] && !x.left[a])
}
/// `a` belongs below its neighbour `b` on the right.
fn tighter_l(x: &X, a: usize, b: usize) -> bool {
    x.prec[a] > x.prec[b] || (x.prec[a] == x.prec[b] && x.left[a])
}
fn consistent(x: &X, i: usize) {
    times!(j < i, 8, { nd::assume(x.prec[i] != x.prec[j] || x.left[i] == x.left[j]) });
}
fn span(x: &X, k: usize, m: usize, i: usize) -> u64 {
    let (mut lo, mut hi) = (i, i + 1);
    let (mut open_l, mut open_r) = (true, true);
    times!(d < k - 1, 8, {
        let d1 = d + 1;
        if open_l && i >= d1 && tighter_l(x, i - d1, i) {
            lo = i - d1;
        } else {
            open_l = false;
        }
        if open_r && i + d1 < m && tighter(x, i + d1, i) {
            hi = i + d1 + 1;
        } else {
            open_r = false;
        }
    });
    lo as u64 | (hi as u64) << 4
}
/// The defining property of the tree: operator `i` covers, to each side, the terms up to the first
/// operator that does not belong below it.
fn spans(x: &X, k: usize, m: usize) -> u64 {
    let mut s = 0u64;
    times!(i < k, 8, {
        if i < m {
            s |= span(x, k, m, i) << (8 * i);
        }
    });
    s
}

pub fn c_bin(mode: Mode, k: usize, kinds: u8, aspect: u8) {
    c_bin_rising(mode, k, kinds, 0, aspect)
}
/// The first `rising` operators are known to bind ever tighter.
pub fn c_bin_rising(mode: Mode, k: usize, kinds: u8, rising: usize, aspect: u8) {
    let pos = nd::u8() as u32;
    let env = Env::with([Step { kind: MISS, val: 0, adv: 0 }; N], 0).delays(mode >> 4);
    let x = X::any(k, kinds, rising, pos);
    let p = BinExprParser::<Tape, _, _, Tree>::new(TermP(&x), OpP(&x));
    let r = if mode & 15 == ONCE {
        run(&env, p.parse_once(tape(&env, pos)))
    } else {
        let mut r = run(&env, p.parse(tape(&env, pos)));
        if mode & 15 == AGAIN {
            x.reset(pos);
            env.reset();
            r = run(&env, p.parse(tape(&env, pos)));
        }
        r
    };
    // the model: the first call that fails decides
    let mut j = 0;
    let mut done = false;
    let mut end = pos;
    let mut before_op = pos;
    times!(i < x.limit, 18, {
        if !done {
            if x.kind[i] == OK {
                j = i + 1;
                end += x.adv[i] as u32;
                if i % 2 == 0 {
                    before_op = end;
                }
            } else {
                done = true;
            }
        }
    });
    let m = if j == 0 { 0 } else { (j - 1) / 2 };
    let e = Er { v: j as u8, fatal: x.kind[j] == FATAL };
    let ok = j > 0 && x.kind[j] != FATAL;
    let want = |r: &Either<Er, Er>| match r {
        Either::First(f) => j % 2 == 1 && *f == e,
        Either::Last(f) => j % 2 == 0 && *f == e,
    };
    if aspect & POS != 0 {
        assert!(!x.wrong_pos.get(), "a sub-parser was started at the wrong position");
        if let Ok((_, t)) = &r {
            assert!(!ok || t.pos == before_op, "the parse ended at the wrong position");
        }
    }
    if aspect & FAT != 0 {
        if x.kind[j] == FATAL {
            assert!(x.n.get() == j + 1, "parsing went on after a fatal error");
            match &r {
                Ok(_) => panic!("a fatal error was turned into a success"),
                Err((f, _)) => {
                    assert!(f.should_terminate(), "a fatal error was reported as recoverable");
                    assert!(want(f), "a fatal error was replaced by another error");
                }
            }
        } else if let Err((f, _)) = &r {
            assert!(!f.should_terminate(), "a recoverable error was promoted to a fatal one");
        }
    }
    if aspect & VAL != 0 {
        assert!(!x.wrong_turn.get(), "terms and operators must alternate");
        assert!(!log().disorder, "an in-order walk does not give the original order");
        assert!(x.n.get() == j + 1, "wrong number of sub-parser calls");
        match &r {
            Ok(((tree, reason), t)) => {
                assert!(ok, "success where the parse must fail");
                assert!(tree.lo == 0 && tree.hi as usize == m, "the tree does not hold all terms");
                assert!(log().joined == (1 << m) - 1, "the tree does not hold all operators");
                assert!(log().span == spans(&x, k, m), "the tree does not follow precedence and associativity");
                assert!(want(reason), "wrong reason");
                assert!(t.pos == before_op, "the parse ended at the wrong position");
            }
            Err((f, _)) => {
                assert!(!ok, "failure where the parse must succeed");
                assert!(want(f), "wrong error");
            }
        }
    }
    reach!(ok && m == k && (k == 1 || x.prec[0] > x.prec[k - 1]), "all operators, falling precedence");
    reach!(ok && m == k && (k == 1 || x.prec[0] < x.prec[k - 1]) && x.adv[2 * k + 1] > 0, "all operators, rising precedence");
    reach!(kinds == 1 || ok && m + 1 == k && j % 2 == 0, "a trailing operator without a term");
    reach!(kinds == 1 || !ok && j == 2 * k, "fatal");
}

/// Stand-ins for `ShortVec::push` and `pop` (which C15 decides): the same operations, split on the
/// length, so that each access has a constant offset.  Without this the solver sees every push as
/// a write anywhere into the whole future that holds the vector.
/// An empty vector that need not grow for `K` elements (growing is C15's).
pub fn roomy<T, const N: usize>() -> ShortVec<T, N> {
    ShortVec::with_capacity(K)
}
macro_rules! stand_ins {
    ($push:ident $pop:ident $($n:literal)*) => {
        pub fn $push<T, const N: usize>(v: &mut ShortVec<T, N>, item: T) {
            let len = v.as_slice().len();
            $(
                if len == $n {
                    v.reserve($n + 1);
                    unsafe {
                        (v.as_ptr() as *mut T).add($n).write(item);
                        v.verif_set_len($n + 1);
                    }
                    return;
                }
            )*
            panic!("more elements than operators");
        }
        pub fn $pop<T, const N: usize>(v: &mut ShortVec<T, N>) -> Option<T> {
            let len = v.as_slice().len();
            $(
                if len == $n + 1 {
                    unsafe {
                        v.verif_set_len($n);
                        return Some(v.as_ptr().add($n).read());
                    }
                }
            )*
            assert!(len == 0, "more elements than operators");
            None
        }
    };
}
stand_ins!(push1 pop1 0);
stand_ins!(push2 pop2 0 1);
stand_ins!(push3 pop3 0 1 2);
stand_ins!(push4 pop4 0 1 2 3);
stand_ins!(push5 pop5 0 1 2 3 4);
stand_ins!(push6 pop6 0 1 2 3 4 5);
stand_ins!(push8 pop8 0 1 2 3 4 5 6 7);
