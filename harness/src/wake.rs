//! Interleavings of senders and waiters.
use crate::{nd, reach, times};
use parcom_internals::future::notify::{Notify, Wait};
use parcom_internals::verif;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

const WAITERS: usize = 2;
const SENDS: usize = 4;
const WAKERS: usize = 4;

pub struct World {
    n: Notify,
    waits: [Option<Wait<'static>>; WAITERS],
    /// being created or polled right now
    busy: [bool; WAITERS],
    /// sends begun, which of them are over, and how many
    begun: usize,
    over: [bool; SENDS],
    ended: usize,
    /// when the waiter was created: sends over before, sends begun until then
    before: [usize; WAITERS],
    until: [usize; WAITERS],
    /// the waker of the latest poll, if that was pending
    latest: [Option<usize>; WAITERS],
    polls: usize,
    woken: [bool; WAKERS],
    /// operations under way, and how many there may be
    depth: usize,
    most: usize,
    /// the current operation is a callback of the operation below it
    inside: bool,
    callbacks: bool,
    // what happened
    saved: bool,
    raced: bool,
}
static mut WORLD: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

static TABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, forget);
unsafe fn clone(k: *const ()) -> RawWaker {
    RawWaker::new(k, &TABLE)
}
unsafe fn forget(_: *const ()) {}
unsafe fn wake(k: *const ()) {
    w().woken[k as usize] = true;
    if w().callbacks && !w().inside && nd::bool() {
        // on the same thread
        w().inside = true;
        let mut cx = Context::from_waker(Waker::noop());
        let mut again = w().n.wait();
        let _ = Pin::new_unchecked(&mut again).poll(&mut cx);
        w().inside = false;
    }
}
/// Another party's turn: one of its operations, as a whole.
fn turn() {
    if w().inside || w().depth > w().most {
        return;
    }
    if nd::bool() {
        w().raced = true;
        operation();
    }
}
fn blocked() {
    // a lock of the same thread never opens
    assert!(!w().inside, "a waker called back into a lock that is held");
    // one of another thread does: this schedule goes on there first
    nd::assume(false);
}
fn operation() {
    w().depth += 1;
    match nd::below(3) {
        0 => send(),
        1 => create(nd::usize_below(WAITERS)),
        _ => poll(nd::usize_below(WAITERS)),
    }
    w().depth -= 1;
}
fn send() {
    let i = w().begun;
    nd::assume(i < SENDS);
    w().begun += 1;
    w().n.send();
    w().over[i] = true;
    w().ended += 1;
}
fn create(j: usize) {
    nd::assume(!w().busy[j] && w().waits[j].is_none());
    w().busy[j] = true;
    w().before[j] = w().ended;
    let n: &'static Notify = &w().n;
    let v = n.wait();
    w().waits[j] = Some(v);
    w().until[j] = w().begun;
    w().busy[j] = false;
}
/// A send begun after the waiter's creation is over.
fn due(j: usize) -> bool {
    let mut due = false;
    times!(i < SENDS, 4, { due = due || i >= w().until[j] && w().over[i] });
    due
}
fn poll(j: usize) {
    nd::assume(!w().busy[j] && w().waits[j].is_some());
    w().busy[j] = true;
    let k = w().polls;
    nd::assume(k < WAKERS);
    w().polls += 1;
    let waker = unsafe { Waker::from_raw(RawWaker::new(k as *const (), &TABLE)) };
    let mut cx = Context::from_waker(&waker);
    let sure = due(j);
    let f = unsafe { Pin::new_unchecked(w().waits[j].as_mut().unwrap()) };
    match f.poll(&mut cx) {
        Poll::Ready(()) => {
            assert!(w().begun > w().before[j], "ready without a notification");
            w().latest[j] = None;
        }
        Poll::Pending => {
            assert!(!sure, "pending although a notification was sent");
            w().latest[j] = Some(k);
        }
    }
    w().busy[j] = false;
}

/// Histories of operations: `a` undisturbed ones, `b` that are preempted by up to `most` others at a
/// time, and `c` undisturbed ones.
pub fn history(a: usize, b: usize, c: usize, most: usize, callbacks: bool) {
    let mut world = World {
        n: Notify::new(),
        waits: [None, None],
        busy: [false; WAITERS],
        begun: 0,
        over: [false; SENDS],
        ended: 0,
        before: [0; WAITERS],
        until: [0; WAITERS],
        latest: [None; WAITERS],
        polls: 0,
        woken: [false; WAKERS],
        depth: 0,
        most: 0,
        inside: false,
        callbacks,
        saved: false,
        raced: false,
    };
    unsafe {
        WORLD = &mut world;
        verif::STEP = turn;
        verif::BLOCKED = blocked;
    }
    create(0);
    times!(s < a + b + c, 8, {
        w().most = if s >= a && s < a + b { most } else { 0 };
        operation();
        times!(j < WAITERS, 4, {
            if let Some(k) = w().latest[j] {
                if due(j) {
                    assert!(w().woken[k], "a waiting party was not woken");
                    w().saved = true;
                }
            }
        });
    });
    reach!(w().saved, "a waiting party was woken");
    reach!(most == 0 || w().saved && w().raced, "a waiting party was woken in a race");
    std::mem::forget(world);
}
