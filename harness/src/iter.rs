//! Iterative parsers over scripted items: request by request.
use crate::comb::*;
use crate::tape::*;
use parcom_core::{IterativeParser, IterativeParserOnce, IterativeParserState, ParseError};
use parcom_parsers::{combinator::*, iterative::*};

pub const NONE: u8 = 10;
pub const ITEM: u8 = 11;
pub const ERR: u8 = 12;

/// What a caller asking `k` times sees; it stops at an error, and at an end unless `past_end`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Trace {
    pub n: usize,
    /// packed per answer: 8 bits kind, item and tag, 16 bits position
    pub kind: u64,
    pub val: u64,
    pub tag: u64,
    pub pos: u128,
    pub err: Option<Fail>,
    pub calls: usize,
    pub at: u128,
    pub fatal: Option<Er>,
}
impl Trace {
    pub fn new() -> Self {
        Trace { n: 0, kind: 0, val: 0, tag: 0, pos: 0, err: None, calls: 0, at: 0, fatal: None }
    }
    pub fn kind_at(&self, i: usize) -> u8 {
        (self.kind >> (8 * i)) as u8
    }
    fn put(&mut self, kind: u8, pos: u32) {
        self.kind |= (kind as u64) << (8 * self.n);
        self.pos |= (pos as u16 as u128) << (16 * self.n);
        self.n += 1;
    }
    fn item(&mut self, tag: u8, v: u8, pos: u32) {
        self.val |= (v as u64) << (8 * self.n);
        self.tag |= (tag as u64) << (8 * self.n);
        self.put(ITEM, pos);
    }
    fn none(&mut self, pos: u32) {
        self.put(NONE, pos);
    }
    fn error(&mut self, f: Fail) {
        self.put(ERR, 0);
        self.err = Some(f);
    }
}

pub fn ask<'e, St, O, E: ParseError>(
    mut st: St,
    env: &'e Env,
    pos: u32,
    k: usize,
    past_end: bool,
    ok: impl Fn(O) -> (u8, u8),
    err: impl Fn(E) -> (u8, Er),
) -> Trace
where
    St: IterativeParserState<Tape<'e>, Output = O, Error = E>,
{
    let mut tr = Trace::new();
    let mut t = tape(env, pos);
    let mut i = 0;
    while i < k {
        env.pendings.set(0);
        match run(env, st.parse_next(t)) {
            Ok((Some(o), r)) => {
                let (tag, v) = ok(o);
                tr.item(tag, v, r.pos);
                t = r;
            }
            Ok((None, r)) => {
                tr.none(r.pos);
                t = r;
                if !past_end {
                    break;
                }
            }
            Err((e, _)) => {
                let stop = e.should_terminate();
                let (side, e) = err(e);
                tr.error(Fail { side, e, e2: None, stop });
                break;
            }
        }
        i += 1;
    }
    tr.calls = env.calls();
    tr.at = env.at.get();
    tr
}

macro_rules! start {
    ($mode:expr, $p:ident, $env:expr, $pos:expr, $k:expr, $past:expr, $ok:expr, $err:expr) => {
        if $mode & 15 == ONCE {
            ask(IterativeParserOnce::parse_iterative_once($p), $env, $pos, $k, $past, $ok, $err)
        } else {
            let mut r = ask(IterativeParser::parse_iterative(&$p), $env, $pos, $k, $past, $ok, $err);
            if $mode & 15 == AGAIN {
                $env.reset();
                r = ask(IterativeParser::parse_iterative(&$p), $env, $pos, $k, $past, $ok, $err);
            }
            r
        }
    };
}

fn id(v: u8) -> (u8, u8) {
    (0, v)
}
fn e1(e: Er) -> (u8, Er) {
    (1, e)
}

pub fn optional_it(mode: Mode, env: &Env, pos: u32, k: usize) -> Trace {
    let p = Optional::new(sub(1, env));
    start!(mode, p, env, pos, k, true, id, e1)
}
pub fn repeat_it(mode: Mode, env: &Env, pos: u32, k: usize) -> Trace {
    let p = Repeat::new(sub(1, env));
    start!(mode, p, env, pos, k, false, id, e1)
}
pub fn take_it(mode: Mode, count: usize, env: &Env, pos: u32, k: usize) -> Trace {
    let p = Take::new(it(1, env), count);
    start!(mode, p, env, pos, k, false, id, e1)
}
/// Asks on after the end: only where the limit itself ended the stream.
pub fn take_past(mode: Mode, count: usize, env: &Env, pos: u32, k: usize) -> Trace {
    let p = Take::new(it(1, env), count);
    start!(mode, p, env, pos, k, true, id, e1)
}
pub fn map_each_it(mode: Mode, env: &Env, pos: u32, k: usize) -> Trace {
    let p = MapEach::new(it(1, env), |v: u8| {
        (env.fcall(), m1(v))
    });
    start!(mode, p, env, pos, k, false, |o: (u8, u8)| o, e1)
}
/// Items with the top bit set are rejected.
pub fn map_while_it(mode: Mode, env: &Env, pos: u32, k: usize) -> Trace {
    let p = MapWhile::new(it(1, env), |v: u8| {
        let n = env.fcall();
        if v < 128 { Some((n, m1(v))) } else { None }
    });
    start!(mode, p, env, pos, k, false, |o: (u8, u8)| o, e1)
}
pub fn scan_it(mode: Mode, init: u8, env: &Env, pos: u32, k: usize) -> Trace {
    let p = Scan::new(it(1, env), init, |st: &mut u8, v: u8| {
        let old = *st;
        *st = st.wrapping_mul(3).wrapping_add(v);
        (old, *st)
    });
    start!(mode, p, env, pos, k, false, |o: (u8, u8)| o, e1)
}
/// Items 0..=127 are mapped, 128..=191 rejected recoverably, the rest fatally.
pub fn try_map_it(mode: Mode, env: &Env, pos: u32, k: usize) -> Trace {
    let p = TryMapEach::new::<(u8, u8), Er2>(it(1, env), |v: u8| {
        let n = env.fcall();
        if v < 128 {
            Ok((n, m1(v)))
        } else {
            Err(Er2(Er { v, fatal: v >= 192 }, 3))
        }
    });
    start!(mode, p, env, pos, k, false, |o: (u8, u8)| o, |e: Er2| (e.1, e.0))
}

// ---- models --------------------------------------------------------------------------------
pub struct ItModel<'a> {
    pub m: Model<'a>,
    pub t: Trace,
}
impl<'a> ItModel<'a> {
    pub fn new(steps: &'a [Step; N], pos: u32) -> Self {
        ItModel { m: Model::new(steps, pos), t: Trace::new() }
    }
    pub fn end(mut self) -> Trace {
        self.t.calls = self.m.n;
        self.t.at = self.m.at;
        self.t.fatal = match self.t.err {
            Some(f) if f.stop => Some(f.e),
            _ => None,
        };
        self.t
    }
}

pub fn optional_it_model(steps: &[Step; N], pos: u32, k: usize) -> Trace {
    let mut x = ItModel::new(steps, pos);
    let mut i = 0;
    while i < k {
        if i > 0 {
            x.t.none(x.m.pos);
        } else {
            let p = x.m.pos;
            let a = x.m.call(1);
            match a.kind {
                OK => x.t.item(0, a.val, x.m.pos),
                FATAL => {
                    x.t.error(Fail::of(1, a));
                    break;
                }
                _ => {
                    x.m.pos = p;
                    x.t.none(p);
                }
            }
        }
        i += 1;
    }
    x.end()
}
pub fn repeat_it_model(steps: &[Step; N], pos: u32, k: usize) -> Trace {
    let mut x = ItModel::new(steps, pos);
    let mut i = 0;
    while i < k {
        let p = x.m.pos;
        let a = x.m.call(1);
        match a.kind {
            OK => x.t.item(0, a.val, x.m.pos),
            FATAL => {
                x.t.error(Fail::of(1, a));
                break;
            }
            _ => {
                x.m.pos = p;
                x.t.none(p);
                break;
            }
        }
        i += 1;
    }
    x.end()
}

pub enum Out {
    Item(u8, u8),
    None,
    Err(Fail),
}
/// Shared shape of the item-wise adaptors: `f` decides what becomes of the n-th item.
pub fn items_model(steps: &[Step; N], pos: u32, k: usize, limit: usize, past: bool, side: u8, mut f: impl FnMut(u8, u8) -> Out) -> Trace {
    let mut x = ItModel::new(steps, pos);
    let mut i = 0;
    let mut got = 0;
    while i < k {
        if got == limit {
            x.t.none(x.m.pos);
            if !past {
                break;
            }
            i += 1;
            continue;
        }
        let a = x.m.call(1);
        match a.kind {
            OK => {
                got += 1;
                match f(got as u8, a.val) {
                    Out::Item(t, v) => x.t.item(t, v, x.m.pos),
                    Out::None => {
                        x.t.none(x.m.pos);
                        break;
                    }
                    Out::Err(e) => {
                        x.t.error(e);
                        break;
                    }
                }
            }
            END => {
                x.t.none(x.m.pos);
                break;
            }
            _ => {
                x.t.error(Fail::of(side, a));
                break;
            }
        }
        i += 1;
    }
    x.end()
}
pub fn take_model(steps: &[Step; N], pos: u32, k: usize, count: usize, past: bool) -> Trace {
    items_model(steps, pos, k, count, past, 1, |_, v| Out::Item(0, v))
}
pub fn map_each_model(steps: &[Step; N], pos: u32, k: usize) -> Trace {
    items_model(steps, pos, k, usize::MAX, false, 1, |n, v| Out::Item(n, m1(v)))
}
pub fn map_while_model(steps: &[Step; N], pos: u32, k: usize) -> Trace {
    items_model(steps, pos, k, usize::MAX, false, 1, |n, v| if v < 128 { Out::Item(n, m1(v)) } else { Out::None })
}
pub fn scan_model(steps: &[Step; N], pos: u32, k: usize, init: u8) -> Trace {
    let mut st = init;
    items_model(steps, pos, k, usize::MAX, false, 1, move |_, v| {
        let old = st;
        st = st.wrapping_mul(3).wrapping_add(v);
        Out::Item(old, st)
    })
}
pub fn try_map_model(steps: &[Step; N], pos: u32, k: usize) -> Trace {
    items_model(steps, pos, k, usize::MAX, false, 1, |n, v| {
        if v < 128 {
            Out::Item(n, m1(v))
        } else if v < 192 {
            Out::None
        } else {
            Out::Err(Fail { side: 3, e: Er { v, fatal: true }, e2: None, stop: true })
        }
    })
}

pub fn compare_it(seen: &Trace, want: &Trace, aspect: u8) {
    if aspect & VAL != 0 {
        assert!(seen.calls == want.calls, "wrong number of items requested from the underlying parser");
        assert!(seen.n == want.n, "wrong number of answers");
        assert!(seen.kind == want.kind, "wrong kind of answer");
        assert!(seen.val == want.val && seen.tag == want.tag, "wrong item");
        assert!(seen.err == want.err, "wrong error");
    }
    if aspect & POS != 0 {
        assert!(agree(seen.at, seen.calls, want.at, want.calls), "a sub-parser was started at the wrong position");
        let (n, m) = (seen.n - seen.err.is_some() as usize, want.n - want.err.is_some() as usize);
        assert!(agree(seen.pos, n, want.pos, m), "a request left the input at the wrong position");
    }
    if aspect & FAT != 0 {
        match (want.fatal, &seen.err) {
            (Some(_), None) => panic!("a fatal error was swallowed"),
            (Some(_), Some(f)) => {
                assert!(f.stop, "a fatal error was reported as recoverable");
                assert!(Some(*f) == want.err, "a fatal error was replaced by another error");
                assert!(seen.calls == want.calls, "parsing went on after a fatal error");
            }
            (None, Some(f)) => assert!(!f.stop, "a recoverable error was promoted to a fatal one"),
            (None, None) => {}
        }
    }
}

pub fn same_it(a: &Trace, b: &Trace) {
    compare_it(a, b, VAL);
    assert!(a.at == b.at, "a sub-parser was started at another position");
    assert!(a.pos == b.pos, "a request left the input at another position");
}
