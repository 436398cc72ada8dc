//! Histories over a write buffer.
use crate::load::Cap;
use crate::stack::Elem;
use crate::{nd, reach, times};
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::generic::GenericSequenceBuilder;
use std::future::{ready, Ready};

/// What was written, and which of it is still there.
pub struct Model {
    pub call: u8,
    pub steps: usize,
    pub most: usize,
    pub live: [usize; 8],
    pub vals: [u8; 8],
    pub len: usize,
    pub made: usize,
    /// items of earlier loads
    pub before: usize,
    pub refused: bool,
    pub shrunk: bool,
    pub cancelled: bool,
    pub grown: bool,
}
impl Model {
    pub fn new(steps: usize, most: usize) -> Self {
        Model { call: 0, steps, most, live: [0; 8], vals: [0; 8], len: 0, made: 0, before: 0, refused: false, shrunk: false, cancelled: false, grown: false }
    }
}
pub struct Src<T: Elem>(pub *mut Model, pub T::Env);
impl<T: Elem> SequenceSource for Src<T> {
    type Item = T;
    type Error = u8;
    type Next<'a, C>
        = Ready<C::Result>
    where
        T: 'a,
        T::Env: 'a,
        C: 'a + SequenceControl<Item = T, Error = u8>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = u8>,
    {
        let m = unsafe { &mut *self.0 };
        m.call += 1;
        if m.call == 3 {
            return ready(control.finish());
        }
        if m.call == 1 {
            // some items of an earlier load
            let n = nd::usize_below(m.most + 1);
            let mut w = control.request_writer(m.most);
            times!(i < n, 8, {
                let _ = i;
                push(&mut w, m, &self.1);
            });
            m.before = m.len;
            return ready(w.advance());
        }
        let want = nd::usize_below(m.most + 1);
        let mut w = control.request_writer(want);
        let cap = w.capacity();
        assert!(cap >= want, "less room than requested");
        assert!(w.len() == 0, "a fresh writer is not empty");
        let steps = m.steps;
        times!(s < steps, 8, {
            let _ = s;
            step(&mut w, m, &self.1, cap);
            look(&mut w, m, cap);
        });
        if nd::bool() {
            ready(w.advance())
        } else {
            m.len = m.before;
            m.cancelled = true;
            ready(w.cancel(7))
        }
    }
}
fn push<T: Elem>(w: &mut impl BufferWriter<Item = T>, m: &mut Model, e: &T::Env) {
    let room = w.len() < w.capacity();
    let (len, made) = (m.len, m.made);
    let x = nd::u8();
    match w.push_item(T::make(e, made, x)) {
        Ok(()) => {
            assert!(room, "accepted an item beyond the capacity");
            m.live[len] = made;
            m.vals[len] = x;
            m.len += 1;
        }
        Err(v) => {
            assert!(!room, "refused an item although there is room");
            v.is(made, x);
            m.refused = true;
        }
    }
    m.made += 1;
}
fn step<T: Elem>(w: &mut impl BufferWriter<Item = T>, m: &mut Model, e: &T::Env, cap: usize) {
    match nd::below(4) {
        0 => push(w, m, e),
        1 => {
            let n = nd::usize_below(8);
            nd::assume(n <= m.len - m.before);
            w.shrink_to(n);
            m.shrunk = m.shrunk || n < m.len - m.before;
            m.len = m.before + n;
        }
        2 => {
            // straight into the spare room
            let len = w.len();
            if len < cap {
                let x = nd::u8();
                w.spare_capacity()[0].write(T::make(e, m.made, x));
                unsafe { w.set_len(len + 1) };
                m.live[m.len] = m.made;
                m.vals[m.len] = x;
                m.len += 1;
                m.made += 1;
            }
        }
        _ => {
            // any one of the items
            let n = m.len - m.before;
            if n > 0 {
                let i = nd::usize_below(8);
                nd::assume(i < n);
                let x = nd::u8();
                w.as_mut_slice()[i].set(x);
                m.vals[m.before + i] = x;
            }
        }
    }
}
fn look<T: Elem>(w: &mut impl BufferWriter<Item = T>, m: &Model, cap: usize) {
    let n = m.len - m.before;
    assert!(w.capacity() == cap, "the capacity changed");
    assert!(w.len() == n, "the written length is wrong");
    assert!(w.as_slice().len() == n && w.as_mut_slice().len() == n, "the view has another length");
    if n > 0 {
        let k = nd::usize_below(8);
        nd::assume(k < n);
        w.as_slice()[k].is(m.live[m.before + k], m.vals[m.before + k]);
        w.as_mut_slice()[k].is(m.live[m.before + k], m.vals[m.before + k]);
    }
    let end = unsafe { w.as_ptr().add(n) };
    let room = w.spare_capacity();
    assert!(room.len() == cap - n, "the spare room is not the capacity minus what was written");
    assert!(room.as_ptr() as *const T == end, "the spare room overlaps written items or leaves a gap");
}
/// One history: an earlier load, then one writer, then the end.
pub fn history<T: Elem, const C: usize>(steps: usize, most: usize) {
    let mut model = Model::new(steps, most);
    let mp: *mut Model = &mut model;
    let (env, env2) = (T::env(), T::env());
    let (buffer, mut loader) = GenericSequenceBuilder::verif_new(Cap::<C>).build(Src::<T>(mp, env2));
    times!(i < 3, 8, {
        let r = crate::exec::now(loader.load());
        let m = unsafe { &*mp };
        assert!(r.is_ok() != (i == 1 && m.cancelled), "a load failed or succeeded unlike the source");
        T::gone(&env, m.made, &m.live, m.len);
    });
    let m = unsafe { &*mp };
    let mut n = 0;
    let j = nd::usize_below(8);
    let mut it = buffer.segments();
    times!(i < 4, 8, {
        let _ = i;
        if let Some(seg) = it.next() {
            if n <= j && j < n + seg.len() {
                assert!(j < m.len, "more was delivered than written");
                seg[j - n].is(m.live[j], m.vals[j]);
            }
            n += seg.len();
        }
    });
    assert!(n == m.len, "not exactly the written items were delivered");
    reach!(std::mem::size_of::<T>() == 0 || m.refused, "an item was refused");
    reach!(m.shrunk && !m.cancelled && m.len > m.before && m.before > 0, "shrunk and delivered after an earlier load");
    reach!(m.cancelled && m.before > 0, "cancelled after an earlier load");
    std::mem::forget(buffer);
    std::mem::forget(loader);
}
