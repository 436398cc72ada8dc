//! A minimal executor: polls with a no-op waker.
use std::future::{Future, IntoFuture};
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};

/// Drives a future that must complete without ever suspending.
pub fn now<F: IntoFuture>(f: F) -> F::Output {
    let mut f = pin!(f.into_future());
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("suspended although no step of the input or of a sub-parser did"),
    }
}

/// Polls until ready, at most `max` + 1 times; returns the output and the number of pending polls.
/// Written out so that the loop bound of a harness need not cover the number of polls.
pub fn drive<F: Future>(f: F, max: u32) -> (F::Output, u32) {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    let mut pending = 0;
    macro_rules! step {
        ($($n:literal)*) => {$(
            let _ = $n;
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                return (v, pending);
            }
            pending += 1;
            assert!(pending <= max, "suspended more often than the steps it waits for");
        )*};
    }
    step!(0 1 2 3 4 5 6 7);
    panic!("suspended more often than the steps it waits for");
}

pub fn poll<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(Waker::noop()))
}
