//! Histories of loads of a streamed source, compared with what the source yielded.
use crate::{nd, reach, times};
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::{generic::GenericSequenceBuilder, BufferStrategy};
use std::future::Future;
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};

/// A strategy of constant capacities.
pub struct Cap<const C: usize>;
impl<const C: usize> BufferStrategy for Cap<C> {
    fn calc_capacity(&self, min: usize) -> usize {
        assert!(min <= C, "asked for more room than the source did");
        C
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Last {
    None,
    Wrote,
    Failed(u8),
    Done,
}
/// What the source did so far.
pub struct Model {
    pub items: [u8; 16],
    pub made: usize,
    pub last: Last,
    /// the greatest number of items per write
    pub most: usize,
    /// the number of times the next load suspends
    pub waits: u8,
    pub cancelled: bool,
}
impl Model {
    pub fn new(most: usize) -> Self {
        Model { items: [0; 16], made: 0, last: Last::None, most, waits: 0, cancelled: false }
    }
}
pub struct Src(pub *mut Model);
pub struct Next<'a, C: SequenceControl<Item = u8, Error = u8>> {
    src: &'a mut Src,
    control: Option<C>,
}
impl<'a, C: SequenceControl<Item = u8, Error = u8>> Unpin for Next<'a, C> {}
impl<'a, C: SequenceControl<Item = u8, Error = u8>> Future for Next<'a, C> {
    type Output = C::Result;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<C::Result> {
        let m = unsafe { &mut *self.src.0 };
        if m.waits > 0 {
            m.waits -= 1;
            return Poll::Pending;
        }
        Poll::Ready(act(m, self.control.take().unwrap()))
    }
}
impl SequenceSource for Src {
    type Item = u8;
    type Error = u8;
    type Next<'a, C>
        = Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = u8>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Next<'a, C>
    where
        C: 'a + SequenceControl<Item = u8, Error = u8>,
    {
        Next { src: self, control: Some(control) }
    }
}
/// One arbitrary answer of the source.
fn act<C: SequenceControl<Item = u8, Error = u8>>(m: &mut Model, control: C) -> C::Result {
    let k = nd::below(4);
    let e = nd::u8();
    if k == 0 {
        m.last = Last::Done;
        return control.finish();
    }
    if k == 1 {
        m.last = Last::Failed(e);
        return control.cancel(e);
    }
    let most = m.most;
    let want = nd::usize_below(most + 1);
    let n = nd::usize_below(most + 1);
    nd::assume(n <= want);
    let mut w = control.request_writer(want);
    let mut n1 = 0usize;
    times!(i < n, 8, {
        let x = nd::u8();
        // (room is the writer's promise, C19: an item it refuses is not written)
        if n1 == i && w.push_item(x).is_ok() {
            m.items[m.made + i] = x;
            n1 += 1;
        }
    });
    if k == 2 {
        m.made += n1;
        m.last = Last::Wrote;
        w.advance()
    } else {
        m.last = Last::Failed(e);
        m.cancelled = true;
        w.cancel(e)
    }
}
/// Asserts that the readable segments are the first items, and counts them.
fn readable<B: SequenceBuffer<Segment = [u8]>>(b: &B, m: &Model, at_most: usize) -> usize {
    let mut it = b.segments();
    let mut n = 0usize;
    // any one of them
    let j = nd::usize_below(16);
    times!(s < at_most, 8, {
        let _ = s;
        if let Some(seg) = it.next() {
            assert!(n + seg.len() <= m.made, "more is readable than the source yielded");
            if n <= j && j < n + seg.len() {
                assert!(seg[j - n] == m.items[j], "an item was lost, repeated, changed or reordered");
            }
            n += seg.len();
        }
    });
    if let Some(seg) = it.next() {
        assert!(seg.is_empty(), "more segments than loads");
    }
    n
}
fn drive<F: Future>(f: F, m: *mut Model, waits: u8) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    unsafe { (*m).waits = waits };
    if waits > 0 {
        assert!(f.as_mut().poll(&mut cx).is_pending(), "ready before the source was");
    }
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("suspended although the source was ready"),
    }
}

/// One history of loads. `REPORTS`: compares the reports (C18), otherwise what is delivered (C17).
pub fn history<const C: usize, const REPORTS: bool>(loads: usize, most: usize, waits: u8, forced: bool) {
    let mut model = Model::new(most);
    let mp: *mut Model = &mut model;
    let (buffer, mut loader) = GenericSequenceBuilder::verif_new(Cap::<C>).build(Src(mp));
    // readable after the last load, reported over all of them, and held back
    let (mut total, mut reported, mut held) = (0usize, 0usize, 0usize);
    let mut commits = 0usize;
    let mut done = false;
    let (mut advanced, mut kept) = (false, false);
    times!(i < loads, 8, {
        if !done {
            let w = if waits > 0 { nd::below(waits + 1) } else { 0 };
            let r = drive(loader.load(), mp, w);
            let m = unsafe { &*mp };
            let now = readable(&buffer, m, i + 1 + commits);
            match r {
                Ok(info) => {
                    assert!(m.last == Last::Wrote || m.last == Last::Done, "a failed load reported success");
                    if REPORTS {
                        assert!(info.is_done() == (m.last == Last::Done), "completion is not reported exactly when the source finished");
                        assert!(now == total + info.commited(), "the reported amount is not the newly readable one");
                        assert!(info.uncommited() == m.made - now, "the reported pending amount is not what is held back");
                        assert!(info.uncommited() <= info.buffer_capacity(), "more held back than the reported capacity");
                        reported += info.commited();
                        if info.is_done() {
                            assert!(info.uncommited() == 0 && info.buffer_capacity() == 0, "something is pending after completion");
                            assert!(forced || reported == m.made, "the reports do not sum up to the items the source yielded");
                        }
                    }
                    advanced = advanced || now > total && m.last != Last::Done;
                }
                Err(e) => {
                    assert!(m.last == Last::Failed(e), "the source's error was not passed through");
                    kept = kept || m.made > now;
                }
            }
            done = m.last == Last::Done;
            if !REPORTS {
                assert!(now >= total, "delivered items disappeared");
                assert!(!done || now == m.made, "items were never delivered");
            }
            total = now;
            held = m.made - now;
            if forced && !done && nd::bool() {
                loader.force_commit();
                let m = unsafe { &*mp };
                commits += 1;
                let now = readable(&buffer, m, i + 1 + commits);
                assert!(now == total + held, "committing did not make exactly the held back items readable");
                total = now;
                held = 0;
            }
        }
    });
    reach!(done && total > 0, "completed with items");
    reach!(C > 4 || forced || advanced, "a full buffer was committed");
    reach!(kept && total > 0, "failed with items held back");
    reach!(forced || model.cancelled && done && total > 0, "completed after a cancelled write");
    let _ = (advanced, kept, held);
    std::mem::forget(buffer);
    std::mem::forget(loader);
}

/// A buffer that is advanced between the loads: what is left is the rest of the items, in order.
pub fn moves<const C: usize>(loads: usize, most: usize) {
    let mut model = Model::new(most);
    let mp: *mut Model = &mut model;
    let (mut buffer, mut loader) = GenericSequenceBuilder::verif_new(Cap::<C>).build(Src(mp));
    // passed over, and readable from the start
    let (mut passed, mut total) = (0usize, 0usize);
    let mut segs = 0usize;
    let (mut inside, mut beyond) = (false, false);
    times!(i < loads, 8, {
        let _ = i;
        let m = unsafe { &*mp };
        if m.last != Last::Done {
            let _ = drive(loader.load(), mp, 0);
            segs += 1;
            if m.last == Last::Wrote && nd::bool() {
                loader.force_commit();
                segs += 1;
            }
        }
        let m = unsafe { &*mp };
        let now = rest(&buffer, m, passed, segs);
        assert!(passed + now >= total, "delivered items disappeared");
        assert!(m.last != Last::Done || passed + now == m.made, "items were never delivered");
        total = passed + now;
        let n = nd::usize();
        let short = buffer.advance(n);
        assert!(short == n - n.min(now), "not as many items were passed over as there were");
        passed += n.min(now);
        assert!(rest(&buffer, m, passed, segs) == total - passed, "passing over some items changed the others");
        inside = inside || n < now && n > 0;
        beyond = beyond || now > 0 && n > now;
    });
    reach!(inside && total > passed, "advanced into a segment");
    reach!(beyond && total == model.made && passed == total && total > 1, "advanced beyond the end");
    std::mem::forget(buffer);
    std::mem::forget(loader);
}
/// A reader that stays: asked again after each load, it gets what was added, and nothing twice.
pub fn stays<const C: usize>(loads: usize, most: usize) {
    let mut model = Model::new(most);
    let mp: *mut Model = &mut model;
    let (buffer, mut loader) = GenericSequenceBuilder::verif_new(Cap::<C>).build(Src(mp));
    let mut it = buffer.segments();
    let mut seen = 0usize;
    let mut again = false;
    // any one of them
    let j = nd::usize_below(16);
    times!(i < loads, 8, {
        let _ = i;
        let mut added = 1;
        if unsafe { (*mp).last != Last::Done } {
            let _ = drive(loader.load(), mp, 0);
            if unsafe { (*mp).last == Last::Wrote } && nd::bool() {
                loader.force_commit();
                added = 2;
            }
        }
        let m = unsafe { &*mp };
        let before = seen;
        times!(k < added, 4, {
            let _ = k;
            if let Some(seg) = it.next() {
                assert!(seen + seg.len() <= m.made, "more is readable than the source yielded");
                if seen <= j && j < seen + seg.len() {
                    assert!(seg[j - seen] == m.items[j], "an item was lost, repeated, changed or reordered");
                }
                seen += seg.len();
            }
        });
        assert!(it.next().is_none_or(|s| s.is_empty()), "more segments than loads");
        again = again || before > 0 && seen > before;
        assert!(m.last != Last::Done || seen == m.made, "items were never delivered");
    });
    reach!(again, "items at two times");
    std::mem::forget(buffer);
    std::mem::forget(loader);
}
/// Asserts that the readable segments are the items from `from` on, and counts them.
fn rest<B: SequenceBuffer<Segment = [u8]>>(b: &B, m: &Model, from: usize, at_most: usize) -> usize {
    let mut it = b.segments();
    let mut n = 0usize;
    // any one of them
    let j = nd::usize_below(16);
    times!(s < at_most, 8, {
        let _ = s;
        if let Some(seg) = it.next() {
            assert!(from + n + seg.len() <= m.made, "more is readable than the source yielded");
            if from + n <= j && j < from + n + seg.len() {
                assert!(seg[j - from - n] == m.items[j], "an item was lost, repeated, changed or reordered");
            }
            n += seg.len();
        }
    });
    if let Some(seg) = it.next() {
        assert!(seg.is_empty(), "more segments than loads");
    }
    n
}

/// Stand-in for freeing a shared node: it is leaked.
#[cfg(kani)]
pub fn leak<T: ?Sized, A: std::alloc::Allocator>(_: &mut std::sync::Arc<T, A>) {}
/// Stand-in for the once-cell's state machine: what it does without contention.
#[cfg(kani)]
pub fn once<F: FnOnce(&std::sync::OnceState)>(me: &std::sync::Once, f: F) {
    use std::sync::{Once, OnceState};
    if me.is_completed() {
        return;
    }
    let st: OnceState = unsafe { std::mem::zeroed() };
    f(&st);
    std::mem::forget(st);
    unsafe { *(me as *const Once as *mut u32) = 0 };
    assert!(me.is_completed());
}

/// The items of a sequence of slices, through the provided source.
pub fn iterator<const C: usize, const N: usize>(most: usize) {
    use parcom_sequence_sources::iterator_source::IteratorSource;
    let mut model = Model::new(most);
    let mut all = [[0u8; 4]; N];
    let mut lens = [0usize; N];
    times!(i < N, 8, {
        lens[i] = nd::usize_below(most + 1);
        times!(k < lens[i], 8, {
            let x = nd::u8();
            all[i][k] = x;
            model.items[model.made] = x;
            model.made += 1;
        });
    });
    let src = IteratorSource::new(Slices::<N> { all: &all, lens, at: 0 });
    let (buffer, mut loader) = GenericSequenceBuilder::verif_new(Cap::<C>).build(src);
    let mut total = 0;
    times!(i < N + 1, 8, {
        match crate::exec::now(loader.load()) {
            Ok(info) => {
                let now = readable(&buffer, &model, i + 1);
                assert!(info.is_done() == (i == N), "completion is not reported exactly when the source finished");
                assert!(now == total + info.commited(), "the reported amount is not the newly readable one");
                total = now;
            }
            Err(_) => unreachable!(),
        }
    });
    assert!(total == model.made, "items were never delivered");
    reach!(total > C, "more than one buffer");
    std::mem::forget(buffer);
    std::mem::forget(loader);
}
pub struct Slices<'a, const N: usize> {
    all: &'a [[u8; 4]; N],
    lens: [usize; N],
    at: usize,
}
impl<'a, const N: usize> Iterator for Slices<'a, N> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        let i = self.at;
        self.at += 1;
        if i < N {
            Some(&self.all[i][..self.lens[i]])
        } else {
            None
        }
    }
}
