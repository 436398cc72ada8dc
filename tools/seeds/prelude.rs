#![allow(unused)]
use parcom_core::{primitive::BytesDelta, *};
use parcom_parsers::{primitive::*, *};
use parcom_util::{done, error::*, fail, Either, EitherBoth};
use std::{cell::*, future::*, pin::*, rc::Rc, sync::Arc, task::*};

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Arc::new(Noop).into();
    for _ in 0..10000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
    }
    panic!("never completes")
}

