//! C23 Filtered observables forward exactly the matching items.
use crate::{nd, reach, times};
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
use std::cell::Cell;

const ITEMS: usize = 3;

/// An item that can not be copied.
struct Item {
    n: u8,
    v: u8,
}
/// What an observer got: item numbers in order, and whether they were as sent.
struct Log {
    got: Cell<u32>,
    n: Cell<usize>,
    ok: Cell<bool>,
}
impl Log {
    fn new() -> Self {
        Log { got: Cell::new(0), n: Cell::new(0), ok: Cell::new(true) }
    }
}
struct Obs<'a> {
    log: &'a Log,
    env: &'a Env,
}
impl<'a> IObserver<Item> for Obs<'a> {
    fn next(&mut self, i: Item) {
        self.log.ok.set(self.log.ok.get() && (i.n as usize) < 2 * ITEMS && self.env.vals[i.n as usize % (2 * ITEMS)] == i.v);
        self.log.got.set(self.log.got.get() << 4 | (i.n as u32 + 1));
        self.log.n.set(self.log.n.get() + 1);
    }
}
struct Env {
    vals: [u8; 2 * ITEMS],
    /// predicate answers, per item
    p: [bool; 2 * ITEMS],
    q: [bool; 2 * ITEMS],
    /// how often a predicate was asked, 4 bits per item
    asked_p: Cell<u32>,
    asked_q: Cell<u32>,
    subs: Cell<u8>,
    ended: Cell<u8>,
}
/// Sends the first half of its items on subscription, and the others when the subscription ends.
struct Src<'a>(&'a Env);
struct Sub<'a, U: IObserver<Item>> {
    o: U,
    env: &'a Env,
}
impl<'a> IObservable<Item> for Src<'a> {
    type Subscription<U: IObserver<Item>> = Sub<'a, U>;
    fn subscribe<U: IObserver<Item>>(&self, mut o: U) -> Sub<'a, U> {
        self.0.subs.set(self.0.subs.get() + 1);
        times!(i < ITEMS, 8, { o.next(Item { n: i as u8, v: self.0.vals[i] }) });
        Sub { o, env: self.0 }
    }
}
impl<'a, U: IObserver<Item>> Drop for Sub<'a, U> {
    fn drop(&mut self) {
        self.env.ended.set(self.env.ended.get() + 1);
        times!(i < ITEMS, 8, { self.o.next(Item { n: (ITEMS + i) as u8, v: self.env.vals[ITEMS + i] }) });
    }
}
fn env() -> Env {
    let mut e = Env {
        vals: nd::bytes(),
        p: [false; 2 * ITEMS],
        q: [false; 2 * ITEMS],
        asked_p: Cell::new(0),
        asked_q: Cell::new(0),
        subs: Cell::new(0),
        ended: Cell::new(0),
    };
    times!(i < 2 * ITEMS, 8, {
        e.p[i] = nd::bool();
        e.q[i] = nd::bool();
    });
    e
}
fn ask(asked: &Cell<u32>, e: &Env, i: &Item, answer: &[bool; 2 * ITEMS]) -> bool {
    assert!(e.vals[i.n as usize] == i.v, "the predicate is asked about another item");
    asked.set(asked.get() + (1 << (4 * i.n)));
    answer[i.n as usize]
}
/// The items `0..n` that pass, in order.
fn want(n: usize, pass: impl Fn(usize) -> bool) -> (u32, usize, u32) {
    let (mut got, mut k, mut asked) = (0, 0, 0);
    times!(i < n, 8, {
        asked |= 1 << (4 * i);
        if pass(i) {
            got = got << 4 | (i as u32 + 1);
            k += 1;
        }
    });
    (got, k, asked)
}
fn check(l: &Log, w: (u32, usize, u32)) {
    assert!(l.ok.get(), "an item was changed");
    assert!(l.n.get() == w.1, "an item was lost or forwarded although it does not match");
    assert!(l.got.get() == w.0, "the items arrive in another order");
}
fn one() {
    let e = env();
    let l = Log::new();
    let f = Src(&e).filter(|i: &Item| ask(&e.asked_p, &e, i, &e.p));
    assert!(e.subs.get() == 0, "subscribed before anybody did");
    let s = f.subscribe(Obs { log: &l, env: &e });
    assert!(e.subs.get() == 1 && e.ended.get() == 0, "the subscription is not the underlying one's");
    check(&l, want(ITEMS, |i| e.p[i]));
    drop(f);
    assert!(e.ended.get() == 0, "the subscription ended with the observable");
    drop(s);
    assert!(e.ended.get() == 1, "the subscription is not the underlying one's");
    let w = want(2 * ITEMS, |i| e.p[i]);
    check(&l, w);
    assert!(e.asked_p.get() == w.2, "the predicate was not asked exactly once per item");
    reach!(w.1 == 2, "some pass");
    reach!(w.1 == 6, "all pass");
}
fn two() {
    let e = env();
    let (l, m) = (Log::new(), Log::new());
    let f = Src(&e).filter(|i: &Item| ask(&e.asked_p, &e, i, &e.p));
    let s = f.subscribe(Obs { log: &l, env: &e });
    let t = f.subscribe(Obs { log: &m, env: &e });
    check(&l, want(ITEMS, |i| e.p[i]));
    check(&m, want(ITEMS, |i| e.p[i]));
    drop(s);
    check(&l, want(2 * ITEMS, |i| e.p[i]));
    check(&m, want(ITEMS, |i| e.p[i]));
    drop(t);
    check(&l, want(2 * ITEMS, |i| e.p[i]));
    check(&m, want(2 * ITEMS, |i| e.p[i]));
    assert!(e.subs.get() == 2 && e.ended.get() == 2, "the subscriptions are not the underlying one's");
    assert!(e.asked_p.get() == 0x222222, "the predicate was not asked exactly once per item and subscription");
    reach!(l.n.get() == 3, "some pass");
}
fn nested() {
    let e = env();
    let l = Log::new();
    let f = Src(&e).filter(|i: &Item| ask(&e.asked_p, &e, i, &e.p)).filter(|i: &Item| ask(&e.asked_q, &e, i, &e.q));
    let s = f.subscribe(Obs { log: &l, env: &e });
    check(&l, want(ITEMS, |i| e.p[i] && e.q[i]));
    drop(s);
    check(&l, want(2 * ITEMS, |i| e.p[i] && e.q[i]));
    assert!(e.asked_p.get() == 0x111111, "the predicate was not asked exactly once per item");
    let mut q = 0;
    times!(i < 2 * ITEMS, 8, {
        if e.p[i] {
            q |= 1 << (4 * i);
        }
    });
    assert!(e.asked_q.get() == q, "the outer predicate was not asked exactly once per item that reaches it");
    assert!(e.subs.get() == 1 && e.ended.get() == 1, "the subscription is not the underlying one's");
    reach!(l.n.get() == 2 && q == 0x11011, "some pass");
}

crate::harnesses! {
    [7] fn q_one() { one() }
    [7] fn q_two() { two() }
    [7] fn q_nested() { nested() }
}
