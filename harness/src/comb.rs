//! Every combinator over scripted sub-parsers: how to run it, and what it must do (the model).
use crate::exec::{drive, now};
use crate::tape::*;
use parcom_core::{ParseError, ParseResult, Parser, ParserOnce};
use parcom_parsers::extension::{IterativeParserExtension, ParserExtension};
use parcom_parsers::{combinator::*, iterative::*};
use parcom_util::{Either, EitherBoth};
use std::future::Future;

pub const MAX: usize = N;

/// Observable outcome of a parse.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Val {
    /// which side / shape
    pub tag: u8,
    pub n: usize,
    /// the values, packed
    pub v: u64,
    /// error carried inside a success
    pub e: Option<Er>,
}
impl Val {
    pub fn new(tag: u8) -> Self {
        Val { tag, n: 0, v: 0, e: None }
    }
    pub fn one(tag: u8, v: u8) -> Self {
        let mut s = Self::new(tag);
        s.put(v);
        s
    }
    pub fn put(&mut self, v: u8) {
        self.v |= (v as u64) << (8 * self.n);
        self.n += 1;
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fail {
    pub side: u8,
    pub e: Er,
    pub e2: Option<Er>,
    pub stop: bool,
}
impl Fail {
    pub fn of(side: u8, s: Step) -> Self {
        Fail { side, e: er(s), e2: None, stop: s.kind == FATAL }
    }
}
pub fn er(s: Step) -> Er {
    Er { v: s.val, fatal: s.kind == FATAL }
}

#[derive(Clone, Copy)]
pub struct Seen {
    pub calls: usize,
    pub who: u32,
    pub at: u128,
    pub res: Result<(Val, u32), Fail>,
    /// a fatal outcome was handed out by a sub-parser
    pub fatal: Option<Er>,
}

pub fn observe(env: &Env, res: Result<(Val, u32), Fail>) -> Seen {
    Seen { calls: env.calls(), who: env.who.get(), at: env.at.get(), res, fatal: None }
}

pub fn run<F: Future>(env: &Env, f: F) -> F::Output {
    if env.max_delay == 0 {
        return now(f);
    }
    let (v, pending) = drive(f, env.max_delay as u32);
    assert!(pending == env.pendings.get(), "the parse suspended although the step it waits for did not");
    v
}

pub fn tape(env: &Env, pos: u32) -> Tape<'_> {
    Tape { pos, env }
}

/// Model of the scripted environment.
pub struct Model<'a> {
    pub steps: &'a [Step; N],
    pub n: usize,
    pub who: u32,
    pub at: u128,
    pub pos: u32,
    pub fatal: Option<Er>,
}
impl<'a> Model<'a> {
    pub fn new(steps: &'a [Step; N], pos: u32) -> Self {
        Model { steps, n: 0, who: 0, at: 0, pos, fatal: None }
    }
    pub fn call(&mut self, who: u8) -> Step {
        let s = self.steps[self.n];
        self.who |= (who as u32) << (4 * self.n);
        self.at |= (self.pos as u16 as u128) << (16 * self.n);
        self.n += 1;
        self.pos += s.adv as u32;
        if s.kind == FATAL {
            self.fatal = Some(er(s));
        }
        s
    }
    pub fn end(self, res: Result<Val, Fail>) -> Seen {
        let pos = self.pos;
        Seen { calls: self.n, who: self.who, at: self.at, res: res.map(|v| (v, pos)), fatal: self.fatal }
    }
}

pub const POS: u8 = 1;
pub const FAT: u8 = 2;
pub const VAL: u8 = 4;

/// Two packed 16-bit logs agree on their common prefix.
pub fn agree(a: u128, n: usize, b: u128, m: usize) -> bool {
    let k = if n < m { n } else { m };
    k == 0 || (a ^ b) << (128 - 16 * k) == 0
}

/// Compares an observation with the model, on the given aspects.
pub fn compare(seen: &Seen, want: &Seen, aspect: u8) {
    if aspect & POS != 0 {
        assert!(agree(seen.at, seen.calls, want.at, want.calls), "a sub-parser was started at the wrong position");
        if let (Ok((_, p)), Ok((_, q))) = (&seen.res, &want.res) {
            assert!(p == q, "the parse ended at the wrong position");
        }
    }
    if aspect & FAT != 0 {
        if let Some(e) = want.fatal {
            assert!(seen.calls == want.calls, "parsing went on after a fatal error");
            match &seen.res {
                Ok(_) => panic!("a fatal error was turned into a success"),
                Err(f) => {
                    assert!(f.stop, "a fatal error was reported as recoverable");
                    let w = match want.res {
                        Err(w) => w,
                        Ok(_) => panic!("model"),
                    };
                    assert!(f.e == w.e && f.side == w.side && f.e2 == w.e2, "a fatal error was replaced by another error");
                    assert!(e.fatal);
                }
            }
        } else if let Err(f) = &seen.res {
            assert!(!f.stop, "a recoverable error was promoted to a fatal one");
        }
    }
    if aspect & VAL != 0 {
        assert!(seen.calls == want.calls, "wrong number of sub-parser calls");
        assert!(seen.who == want.who, "the wrong sub-parser was called");
        match (&seen.res, &want.res) {
            (Ok((a, p)), Ok((b, q))) => {
                assert!(a.tag == b.tag && a.e == b.e, "wrong kind of success");
                assert!(a.n == b.n, "wrong number of values");
                assert!(a.v == b.v, "wrong value");
                assert!(p == q, "wrong final position");
            }
            (Err(a), Err(b)) => assert!(a == b, "wrong error"),
            (Ok(_), Err(_)) => panic!("success where the parse must fail"),
            (Err(_), Ok(_)) => panic!("failure where the parse must succeed"),
        }
    }
}

/// Two observations must be the same in everything but the position of a failure.
pub fn same(a: &Seen, b: &Seen) {
    compare(a, b, VAL);
    assert!(a.at == b.at, "a sub-parser was started at another position");
}

/// How a parser is run: through the single-use entry point, through the reusable one, or a second
/// time through the reusable one (the first run's log is dropped).
pub type Mode = u8;
pub const ONCE: Mode = 0;
pub const REF: Mode = 1;
pub const AGAIN: Mode = 2;
/// Added to a mode (n times): any steps may suspend before they complete, n times in total.
pub const DELAY: Mode = 16;

macro_rules! go {
    ($mode:expr, $env:expr, $pos:expr, $p:expr) => {{
        let p = $p;
        if $mode & 15 == ONCE {
            run($env, ParserOnce::parse_once(p, tape($env, $pos)))
        } else {
            let mut r = run($env, Parser::parse(&p, tape($env, $pos)));
            if $mode & 15 == AGAIN {
                $env.reset();
                r = run($env, Parser::parse(&p, tape($env, $pos)));
            }
            r
        }
    }};
}

fn fail1<E: ParseError>(e: E, f: impl FnOnce(E) -> (u8, Er, Option<Er>)) -> Fail {
    let stop = e.should_terminate();
    let (side, e, e2) = f(e);
    Fail { side, e, e2, stop }
}

fn plain<'e, O, E: ParseError>(
    r: ParseResult<Tape<'e>, O, E>,
    ok: impl FnOnce(O) -> Val,
    err: impl FnOnce(E) -> (u8, Er, Option<Er>),
) -> Result<(Val, u32), Fail> {
    match r {
        Ok((v, t)) => Ok((ok(v), t.pos)),
        Err((e, _)) => Err(fail1(e, err)),
    }
}

// ---- choice ------------------------------------------------------------------------------
pub fn or_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, Or::new(sub(1, env), sub(2, env)));
    let r = plain(
        r,
        |v| match v {
            Either::First(v) => Val::one(1, v),
            Either::Last(v) => Val::one(2, v),
        },
        |e| match e {
            EitherBoth::First(e) => (1, e, None),
            EitherBoth::Last(e) => (2, e, None),
            EitherBoth::Both(a, b) => (3, a, Some(b)),
        },
    );
    observe(env, r)
}
pub fn or_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind == OK {
        return m.end(Ok(Val::one(1, a.val)));
    }
    if a.kind == FATAL {
        return m.end(Err(Fail::of(1, a)));
    }
    m.pos = pos;
    let b = m.call(2);
    if b.kind == OK {
        return m.end(Ok(Val::one(2, b.val)));
    }
    if b.kind == FATAL {
        return m.end(Err(Fail::of(2, b)));
    }
    m.end(Err(Fail { side: 3, e: er(a), e2: Some(er(b)), stop: false }))
}

// ---- sequence ----------------------------------------------------------------------------
pub fn join_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, Join::new(sub(1, env), sub(2, env)));
    let r = plain(
        r,
        |(a, b)| {
            let mut v = Val::one(0, a);
            v.put(b);
            v
        },
        |e| match e {
            Either::First(e) => (1, e, None),
            Either::Last(e) => (2, e, None),
        },
    );
    observe(env, r)
}
pub fn join_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        return m.end(Err(Fail::of(1, a)));
    }
    let b = m.call(2);
    if b.kind != OK {
        return m.end(Err(Fail::of(2, b)));
    }
    let mut v = Val::one(0, a.val);
    v.put(b.val);
    m.end(Ok(v))
}

// ---- optional ----------------------------------------------------------------------------
pub fn optional_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, Optional::new(sub(1, env)));
    let r = plain(
        r,
        |v| match v {
            Ok(v) => Val::one(1, v),
            Err(e) => Val { e: Some(e), ..Val::new(2) },
        },
        |e| (1, e, None),
    );
    observe(env, r)
}
pub fn optional_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind == OK {
        return m.end(Ok(Val::one(1, a.val)));
    }
    if a.kind == FATAL {
        return m.end(Err(Fail::of(1, a)));
    }
    m.pos = pos;
    m.end(Ok(Val { e: Some(er(a)), ..Val::new(2) }))
}

// ---- map, map_err, and_then, unify, unify_err, ref, boxed, closures -------------------------
pub fn m1(v: u8) -> u8 {
    v ^ 0x5a
}
pub fn map_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, ParserExtension::<Tape>::map(sub(1, env), |v: u8| {
        env.fcall();
        (m1(v), 7u8)
    }));
    let r = plain(r, |(a, b)| { let mut v = Val::one(env.fcalls.get(), a); v.put(b); v }, |e| (env.fcalls.get() + 1, e, None));
    observe(env, r)
}
pub fn map_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        return m.end(Err(Fail::of(1, a)));
    }
    let mut v = Val::one(1, m1(a.val));
    v.put(7);
    m.end(Ok(v))
}

/// An error type other than `Er`, to see that conversions are applied.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Er2(pub Er, pub u8);
impl ParseError for Er2 {
    fn should_terminate(&self) -> bool {
        self.0.fatal
    }
}
impl From<Er> for Er2 {
    fn from(e: Er) -> Self {
        Er2(e, 1)
    }
}

pub fn map_err_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, MapErr::new(sub(1, env), |e: Er| {
        env.fcall();
        Er2(Er { v: m1(e.v), fatal: e.fatal }, 9)
    }));
    let r = plain(r, |v| Val::one(env.fcalls.get(), v), |e| (e.1 + env.fcalls.get(), e.0, None));
    observe(env, r)
}
pub fn map_err_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        let f = Fail { side: 10, e: Er { v: m1(a.val), fatal: a.kind == FATAL }, e2: None, stop: a.kind == FATAL };
        return m.end(Err(f));
    }
    m.end(Ok(Val::one(0, a.val)))
}

/// and_then: the user function's own outcome is step 7 of the script.
pub fn and_then_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let d = env.steps[N - 1];
    let r = go!(mode, env, pos, AndThen::new(sub(1, env), |v: u8| {
        env.fcall();
        if d.kind == OK { Ok(m1(v)) } else { Err(Er2(Er { v: m1(v) ^ d.val, fatal: d.kind == FATAL }, 2)) }
    }));
    let r = plain(r, |v| Val::one(env.fcalls.get(), v), |e| (e.1 + 16 * env.fcalls.get(), e.0, None));
    observe(env, r)
}
pub fn and_then_model(steps: &[Step; N], pos: u32) -> Seen {
    let d = steps[N - 1];
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        return m.end(Err(Fail::of(1, a)));
    }
    if d.kind == OK {
        return m.end(Ok(Val::one(1, m1(a.val))));
    }
    let e = Er { v: m1(a.val) ^ d.val, fatal: d.kind == FATAL };
    if e.fatal {
        m.fatal = Some(e);
    }
    m.end(Err(Fail { side: 18, e, e2: None, stop: e.fatal }))
}

pub struct Wide(u8, u8);
pub struct A(u8);
pub struct B(u8);
impl From<A> for Wide {
    fn from(a: A) -> Self {
        Wide(1, m1(a.0))
    }
}
impl From<B> for Wide {
    fn from(b: B) -> Self {
        Wide(2, b.0)
    }
}
pub fn unify_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let p = Unify::<_, A, B, Wide, _>::new(ParserExtension::<Tape>::map(sub(1, env), |v: u8| {
        if v & 1 == 0 { Either::First(A(v)) } else { Either::Last(B(v)) }
    }));
    let r = go!(mode, env, pos, p);
    let r = plain(r, |w: Wide| Val::one(w.0, w.1), |e| (1, e, None));
    observe(env, r)
}
pub fn unify_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        return m.end(Err(Fail::of(1, a)));
    }
    let v = if a.val & 1 == 0 { Val::one(1, m1(a.val)) } else { Val::one(2, a.val) };
    m.end(Ok(v))
}
pub struct EA(Er);
pub struct EB(Er);
impl ParseError for EA {
    fn should_terminate(&self) -> bool {
        self.0.fatal
    }
}
impl ParseError for EB {
    fn should_terminate(&self) -> bool {
        self.0.fatal
    }
}
impl From<EA> for Er2 {
    fn from(e: EA) -> Self {
        Er2(e.0, 1)
    }
}
impl From<EB> for Er2 {
    fn from(e: EB) -> Self {
        Er2(e.0, 2)
    }
}
pub fn unify_err_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let p = UnifyErr::<_, EA, EB, Er2, _>::new(MapErr::new(sub(1, env), |e: Er| {
        if e.v & 1 == 0 { Either::First(EA(e)) } else { Either::Last(EB(e)) }
    }));
    let r = go!(mode, env, pos, p);
    let r = plain(r, |v| Val::one(1, v), |e: Er2| (e.1, e.0, None));
    observe(env, r)
}
pub fn unify_err_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        return m.end(Err(Fail::of(if a.val & 1 == 0 { 1 } else { 2 }, a)));
    }
    m.end(Ok(Val::one(1, a.val)))
}
pub fn ref_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let s = sub(1, env);
    let p = ParserExtension::<Tape>::as_ref(&s);
    let r = go!(mode, env, pos, p);
    observe(env, plain(r, |v| Val::one(1, v), |e| (1, e, None)))
}
pub fn boxed_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, ParserExtension::<Tape>::boxed(sub(1, env)));
    observe(env, plain(r, |v| Val::one(1, v), |e| (1, e, None)))
}
pub fn closure_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let s = sub(1, env);
    fn id<'e, F: Fn(Tape<'e>) -> Fut, Fut>(_: &'e Env, f: F) -> F {
        f
    }
    let f = id(env, |t| s.parse_once(t));
    let r = go!(mode, env, pos, f);
    observe(env, plain(r, |v| Val::one(1, v), |e| (1, e, None)))
}
/// reference, boxed and closures add nothing
pub fn plain_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let a = m.call(1);
    if a.kind != OK {
        return m.end(Err(Fail::of(1, a)));
    }
    m.end(Ok(Val::one(1, a.val)))
}

// ---- repetition ----------------------------------------------------------------------------
pub fn repeat_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let r = go!(mode, env, pos, Repeat::new(sub(1, env)));
    let r = plain(
        r,
        |(vs, e)| {
            let mut v = Val::new(1);
            assert!(vs.len() <= env.calls(), "more values than sub-parser calls");
            let mut i = 0;
            while i < env.limit {
                if i < vs.len() {
                    v.put(vs[i]);
                }
                i += 1;
            }
            std::mem::forget(vs);
            v.e = Some(e);
            v
        },
        |e| (1, e, None),
    );
    observe(env, r)
}
/// The script's last allowed step must not succeed.
pub fn repeat_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let mut v = Val::new(1);
    loop {
        let p = m.pos;
        let a = m.call(1);
        if a.kind == FATAL {
            return m.end(Err(Fail::of(1, a)));
        }
        if a.kind == MISS {
            m.pos = p;
            v.e = Some(er(a));
            return m.end(Ok(v));
        }
        v.put(a.val);
    }
}

/// What collections in these harnesses collect into (no heap).
#[derive(Default)]
pub struct Bag(pub usize, pub u64);
impl Extend<u8> for Bag {
    fn extend<T: IntoIterator<Item = u8>>(&mut self, iter: T) {
        for v in iter {
            assert!(self.0 < MAX, "more values than sub-parser calls");
            self.1 |= (v as u64) << (8 * self.0);
            self.0 += 1;
        }
    }
}
pub fn collect_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let p = IterativeParserExtension::<Tape>::collect::<Bag>(it(1, env));
    let r = go!(mode, env, pos, p);
    let r = plain(r, |(b, e): (Bag, Option<Er>)| Val { tag: 1, n: b.0, v: b.1, e }, |e| (1, e, None));
    observe(env, r)
}
pub fn collect_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let mut v = Val::new(1);
    loop {
        let p = m.pos;
        let a = m.call(1);
        match a.kind {
            OK => v.put(a.val),
            FATAL => return m.end(Err(Fail::of(1, a))),
            END => {
                m.pos = p;
                return m.end(Ok(v));
            }
            _ => {
                m.pos = p;
                v.e = Some(er(a));
                return m.end(Ok(v));
            }
        }
    }
}
pub fn fold_run(mode: Mode, env: &Env, pos: u32) -> Seen {
    let init = Val::new(env.steps[N - 1].val);
    let p = Fold::new(it(1, env), init, |mut a: Val, v: u8| {
        assert!(a.n < MAX, "more values than sub-parser calls");
        a.put(v);
        a
    });
    let r = go!(mode, env, pos, p);
    observe(env, plain(r, |v| v, |e| (1, e, None)))
}
pub fn fold_model(steps: &[Step; N], pos: u32) -> Seen {
    let mut m = Model::new(steps, pos);
    let mut v = Val::new(steps[N - 1].val);
    loop {
        let a = m.call(1);
        match a.kind {
            OK => v.put(a.val),
            END => return m.end(Ok(v)),
            _ => return m.end(Err(Fail::of(1, a))),
        }
    }
}
