//! An abstract input (only a position) and scripted sub-parsers with arbitrary behaviour.
use crate::nd;
use parcom_core::{
    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
    ParserOnce, RewindSequence, SegmentStream, Sequence, UnknownLocation,
};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Calls a script can answer.
pub const N: usize = 8;

pub const OK: u8 = 0;
pub const MISS: u8 = 1;
pub const FATAL: u8 = 2;
/// Iterative parsers only: the items have ended.
pub const END: u8 = 3;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Step {
    pub kind: u8,
    pub val: u8,
    pub adv: u8,
}

/// What the n-th sub-parser call does, and who called at which position.
pub struct Env {
    pub steps: [Step; N],
    pub limit: usize,
    pub n: Cell<usize>,
    /// the log, packed: 4 bits of caller id and 16 bits of position per call
    pub who: Cell<u32>,
    pub at: Cell<u128>,
    /// how often the steps of one run may suspend, in total
    pub max_delay: u8,
    pub budget: Cell<u8>,
    pub pendings: Cell<u32>,
    pub rewinds: Cell<u32>,
    /// calls of user functions
    pub fcalls: Cell<u8>,
}

impl Env {
    /// `kinds`: number of outcome kinds (2: ok/miss, 3: + fatal, 4: + end); `limit`: calls allowed.
    pub fn any(kinds: u8, limit: usize) -> Self {
        let mut steps = [Step { kind: MISS, val: 0, adv: 0 }; N];
        let mut i = 0;
        while i < limit {
            steps[i] = Step { kind: nd::below(kinds), val: nd::u8(), adv: nd::u8() };
            i += 1;
        }
        Self::with(steps, limit)
    }
    pub fn with(steps: [Step; N], limit: usize) -> Self {
        Env {
            steps,
            limit,
            n: Cell::new(0),
            who: Cell::new(0),
            at: Cell::new(0),
            max_delay: 0,
            budget: Cell::new(0),
            pendings: Cell::new(0),
            rewinds: Cell::new(0),
            fcalls: Cell::new(0),
        }
    }
    pub fn delays(mut self, max: u8) -> Self {
        self.max_delay = max;
        self.budget.set(max);
        self
    }
    /// A second environment with the same script and an empty log.
    pub fn again(&self) -> Self {
        Self::with(self.steps, self.limit)
    }
    pub fn take(&self, who: u8, at: u32) -> Step {
        let i = self.n.get();
        assert!(i < self.limit, "a sub-parser was called after the parse had to stop");
        self.n.set(i + 1);
        self.who.set(self.who.get() | (who as u32) << (4 * i));
        self.at.set(self.at.get() | (at as u16 as u128) << (16 * i));
        self.steps[i]
    }
    /// Empties the log; the script starts over.
    pub fn reset(&self) {
        self.n.set(0);
        self.who.set(0);
        self.at.set(0);
        self.pendings.set(0);
        self.fcalls.set(0);
        self.budget.set(self.max_delay);
    }
    /// Counts a call of a user function.
    pub fn fcall(&self) -> u8 {
        self.fcalls.set(self.fcalls.get() + 1);
        self.fcalls.get()
    }
    pub fn calls(&self) -> usize {
        self.n.get()
    }
    pub fn delay<T>(&self, v: T) -> Delayed<'_, T> {
        let mut left = 0;
        if self.max_delay != 0 {
            left = nd::below(self.max_delay + 1);
            nd::assume(left <= self.budget.get());
            self.budget.set(self.budget.get() - left);
        }
        Delayed { left, v: Some(v), env: self }
    }
}

/// Resolves to its value after `left` pending polls.
pub struct Delayed<'e, T> {
    left: u8,
    v: Option<T>,
    env: &'e Env,
}
impl<T> Unpin for Delayed<'_, T> {}
impl<T> Future for Delayed<'_, T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<T> {
        if self.left > 0 {
            self.left -= 1;
            self.env.pendings.set(self.env.pendings.get() + 1);
            return Poll::Pending;
        }
        match self.v.take() {
            Some(v) => Poll::Ready(v),
            None => panic!("a completed step was polled again"),
        }
    }
}

pub struct Tape<'e> {
    pub pos: u32,
    pub env: &'e Env,
}

pub struct NoSegments;
impl SegmentStream for NoSegments {
    type Length = usize;
    type Segment = [u8];
    type Next<'a> = std::future::Ready<Option<&'a [u8]>>;
    fn next(&mut self, _: usize) -> Self::Next<'_> {
        std::future::ready(None)
    }
}

impl<'e> Sequence for Tape<'e> {
    type Length = usize;
    type Segment = [u8];
    type Segments<'a>
        = NoSegments
    where
        Self: 'a;
    type Advance = Delayed<'e, Self>;
    fn segments(&mut self) -> NoSegments {
        NoSegments
    }
    fn advance(self, delta: usize) -> Self::Advance {
        self.env.delay(Tape { pos: self.pos + delta as u32, env: self.env })
    }
}

pub struct TapeAnchor(u32);

impl<'e> RewindSequence for Tape<'e> {
    type Anchor = TapeAnchor;
    type Rewind = Delayed<'e, Self>;
    fn anchor(&self) -> TapeAnchor {
        TapeAnchor(self.pos)
    }
    fn rewind(self, a: TapeAnchor) -> Self::Rewind {
        self.env.rewinds.set(self.env.rewinds.get() + 1);
        self.env.delay(Tape { pos: a.0, env: self.env })
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Er {
    pub v: u8,
    pub fatal: bool,
}
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.fatal
    }
}

/// The scripted sub-parser number `id`.
#[derive(Clone, Copy)]
pub struct Sub<'e> {
    pub id: u8,
    pub env: &'e Env,
}
pub fn sub(id: u8, env: &Env) -> Sub<'_> {
    Sub { id, env }
}

fn outcome<'e, T>(s: Step, t: Tape<'e>, f: impl FnOnce(u8) -> T) -> ParseResult<Tape<'e>, T, Er> {
    let rest = Tape { pos: t.pos + s.adv as u32, env: t.env };
    if s.kind == OK {
        Ok((f(s.val), rest))
    } else {
        Err((Er { v: s.val, fatal: s.kind == FATAL }, UnknownLocation::from(rest)))
    }
}

impl<'e> ParserOnce<Tape<'e>> for Sub<'e> {
    type Output = u8;
    type Error = Er;
    fn parse_once(self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, u8, Er>> {
        let s = self.env.take(self.id, t.pos);
        self.env.delay(outcome(s, t, |v| v))
    }
}
impl<'e> Parser<Tape<'e>> for Sub<'e> {
    fn parse(&self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, u8, Er>> {
        let s = self.env.take(self.id, t.pos);
        self.env.delay(outcome(s, t, |v| v))
    }
}

/// The scripted iterative parser: OK = an item, END = the end, MISS/FATAL = errors.
/// One-shot and reusable form are told apart by the call's `who`: id, id + 100.
#[derive(Clone, Copy)]
pub struct It<'e> {
    pub id: u8,
    pub env: &'e Env,
}
pub fn it(id: u8, env: &Env) -> It<'_> {
    It { id, env }
}
pub struct ItState<'e> {
    id: u8,
    env: &'e Env,
}
impl<'e> IterativeParserState<Tape<'e>> for ItState<'e> {
    type Output = u8;
    type Error = Er;
    fn parse_next(&mut self, t: Tape<'e>) -> impl Future<Output = ParseResult<Tape<'e>, Option<u8>, Er>> {
        let s = self.env.take(self.id, t.pos);
        let r = if s.kind == END {
            Ok((None, Tape { pos: t.pos + s.adv as u32, env: t.env }))
        } else {
            outcome(s, t, Some)
        };
        self.env.delay(r)
    }
}
impl<'e> IterativeParserOnce<Tape<'e>> for It<'e> {
    type Output = u8;
    type Error = Er;
    type StateOnce = ItState<'e>;
    fn parse_iterative_once(self) -> ItState<'e> {
        ItState { id: self.id, env: self.env }
    }
}
impl<'e> IterativeParser<Tape<'e>> for It<'e> {
    type State<'a>
        = ItState<'e>
    where
        Self: 'a;
    fn parse_iterative(&self) -> ItState<'e> {
        ItState { id: self.id, env: self.env }
    }
}
