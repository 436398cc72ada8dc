//! A reader of the live sequence against a driver that appends, signals and ends.
use crate::{nd, reach, times};
use parcom_core::{Never, SegmentStream, Sequence};
use parcom_internals::future::notify::Notify;
use parcom_internals::verif::{self, atomic::AtomicBool};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use std::future::{Future, IntoFuture, Ready};
use std::pin::pin;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// the greatest number of segments, and of items in one
const SEGS: usize = 3;
const ITEMS: usize = 2;

// (Plain statics, few accesses and narrow numbers: all this is executed at every yield point.)
static mut N: u8 = 0;
/// segment `i` is `DATA[i * ITEMS..][..LENS[i]]` (told apart by where it is)
static mut LENS: [u8; SEGS] = [0; SEGS];
static DATA: [u8; SEGS * ITEMS] = [0; SEGS * ITEMS];
/// The driver's position in its program: append 0, signal, append 1, signal, ..., mark the end, signal.
static mut POS: u8 = 0;
/// the signal after an append is left out: the next one follows at once
static mut MERGED: u8 = 0;
static mut SIGNAL: *const Notify = std::ptr::null();
static mut FLAG: *const AtomicBool = std::ptr::null();
static mut DRIVING: bool = false;
static mut RACED: bool = false;
static mut WOKEN: bool = false;
static mut WAITED: bool = false;
/// where the buffer begins
static mut AT: (u8, u8) = (0, 0);

unsafe fn appended() -> u8 {
    let p = (POS + 1) / 2;
    if p < N {
        p
    } else {
        N
    }
}
unsafe fn done() -> bool {
    POS > 2 * N
}
static TABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, forget);
unsafe fn clone(k: *const ()) -> RawWaker {
    RawWaker::new(k, &TABLE)
}
unsafe fn forget(_: *const ()) {}
unsafe fn wake(_: *const ()) {
    unsafe { WOKEN = true };
}

/// A step of the driver that is not a signal.
unsafe fn quiet() {
    let (p, n) = (POS, N);
    if p & 1 == 0 && p <= 2 * n {
        POS = p + 1 + (p < 2 * n && MERGED >> (p / 2) & 1 == 1) as u8;
        if p == 2 * n {
            (*FLAG).store(true, Ordering::SeqCst);
        }
    }
}
unsafe fn say() {
    POS += 1;
    (*SIGNAL).send();
}
/// Perhaps some of the driver's steps, between two accesses of the reader.
fn turn() {
    unsafe {
        if DRIVING {
            return;
        }
        let k = nd::u8();
        if k & 1 == 0 {
            return;
        }
        DRIVING = true;
        RACED = true;
        quiet();
        if k & 2 != 0 {
            quiet();
        }
        if k & 4 != 0 && POS & 1 == 1 {
            say();
        }
        DRIVING = false;
    }
}
fn nothing() {}
/// The lock is the reader's: the driver has to wait, this schedule goes on there first.
fn blocked() {
    nd::assume(false);
}
unsafe fn drive<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let waker = Waker::from_raw(RawWaker::new(std::ptr::null(), &TABLE));
    let mut cx = Context::from_waker(&waker);
    macro_rules! polls {
        ($($n:literal)*) => { $( {
            let _ = $n;
            WOKEN = false;
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                return v;
            }
            if !WOKEN {
                WAITED = true;
                // nothing but the driver can help: up to its next signal
                DRIVING = true;
                quiet();
                quiet();
                if N > 1 {
                    quiet();
                }
                assert!(POS & 1 == 1, "still waiting although the end was signalled");
                say();
                DRIVING = false;
                assert!(WOKEN, "the waiting reader was not woken");
            }
        } )* };
    }
    // at worst every signal costs a registration and a poll
    polls!(0 1 2 3 4 5);
    if N > 1 {
        polls!(6 7);
    }
    panic!("polled more often than there are signals")
}

pub struct NoSource;
impl SequenceSource for NoSource {
    type Item = u8;
    type Error = Never;
    type Next<'a, C>
        = Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = Never>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = Never>,
    {
        std::future::ready(control.finish())
    }
}
pub struct NoLoader;
impl SequenceLoader for NoLoader {
    type Length = usize;
    type Segment = [u8];
    type Error = Never;
    type Load<'a> = Ready<Result<LoadInfo, Never>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        unreachable!()
    }
}
pub struct Builder;
impl SequenceBuilder<NoSource> for Builder {
    type Length = usize;
    type Segment = [u8];
    type Buffer = Buffer;
    type Loader = NoLoader;
    fn build(&self, _: NoSource) -> (Buffer, NoLoader) {
        (Buffer { seg: 0, off: 0 }, NoLoader)
    }
}
/// What was appended so far, from a position on; the driver may act before every look at it.
pub struct Buffer {
    seg: usize,
    off: usize,
}
impl SequenceBuffer for Buffer {
    type Length = usize;
    type Segment = [u8];
    type Iter<'a> = Iter<'a>;
    fn advance(&mut self, n: usize) -> usize {
        unsafe { self.skip(n) }
    }
    fn segments(&self) -> Iter<'_> {
        Iter { seg: self.seg, off: self.off, data: &DATA }
    }
}
impl Buffer {
    unsafe fn skip(&mut self, n: usize) -> usize {
        let mut n = n;
        let mut over = false;
        times!(k < N as usize + 1, 4, {
            let _ = k;
            if !over {
                verif::STEP();
                if self.seg < appended() as usize {
                    let len = LENS[self.seg] as usize - self.off;
                    if n < len {
                        self.off += n;
                        n = 0;
                        over = true;
                    } else {
                        n -= len;
                        self.seg += 1;
                        self.off = 0;
                    }
                } else {
                    over = true;
                }
            }
        });
        AT = (self.seg as u8, self.off as u8);
        n
    }
}
pub struct Iter<'a> {
    seg: usize,
    off: usize,
    data: &'a [u8],
}
impl<'a> Iterator for Iter<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        unsafe {
            verif::STEP();
            if self.seg < appended() as usize {
                let (i, off) = (self.seg, self.off);
                self.seg += 1;
                self.off = 0;
                Some(self.data.get_unchecked(i * ITEMS + off..i * ITEMS + LENS[i] as usize))
            } else {
                None
            }
        }
    }
}

/// A sequence read from somewhere, with the driver anywhere.
unsafe fn any(segs: usize, head: Buffer) -> DefaultSequence<NoSource, Builder> {
    verif::STEP = nothing;
    verif::BLOCKED = blocked;
    N = segs as u8;
    DRIVING = false;
    RACED = false;
    WAITED = false;
    times!(i < segs, 4, { LENS[i] = nd::below(ITEMS as u8 + 1) });
    MERGED = nd::u8();
    let (at, off) = (head.seg, head.off);
    let seq = DefaultSequence::new(head, NoLoader);
    let (signal, flag) = seq.verif_signals();
    SIGNAL = Arc::into_raw(signal);
    FLAG = Arc::into_raw(flag);
    // the past: no one is waiting, so its signals need not be sent
    POS = nd::below(2 * N + 3);
    (*FLAG).store(done(), Ordering::SeqCst);
    let n = appended() as usize;
    nd::assume(at <= n && (off == 0 || at < n && off < LENS[at] as usize));
    verif::STEP = turn;
    seq
}
fn head(segs: usize, off: usize) -> Buffer {
    let seg = nd::usize_below(segs + 1);
    Buffer { seg, off }
}

/// Reads `count` segments from any position on.
pub unsafe fn read(segs: usize, count: usize) {
    let h = head(segs, 0);
    let mut at = h.seg;
    let mut seq = any(segs, h);
    let mut it = seq.segments();
    let mut end = false;
    times!(i < count, 4, {
        let _ = i;
        if !end {
            match drive(it.next(0).into_future()) {
                Some(s) => {
                    assert!(at < appended() as usize, "a segment that was not appended");
                    let d = s.as_ptr().offset_from(DATA.as_ptr());
                    assert!(d == (at * ITEMS) as isize && s.len() == LENS[at] as usize, "not the next segment");
                    at += 1;
                }
                None => {
                    assert!(done(), "the end was reported before it was marked");
                    assert!(at == segs, "segments were missed");
                    end = true;
                }
            }
        }
    });
    reach!(!end && WAITED, "a segment that was waited for");
    reach!(end && WAITED, "an end that was waited for");
    reach!(end && RACED, "an end in a race");
    std::mem::forget(seq);
}
/// Skips any number of items from any position on.
pub unsafe fn skip(segs: usize) {
    let h = head(segs, nd::usize_below(ITEMS));
    let (at, off) = (h.seg, h.off);
    let seq = any(segs, h);
    let n = nd::usize();
    let before = items(at, off);
    AT = (at as u8, off as u8);
    let seq = drive(seq.advance(n).into_future());
    let (at, off) = (AT.0 as usize, AT.1 as usize);
    let all = appended() as usize;
    assert!(at < all && off <= LENS[at] as usize || at == all && off == 0, "a position that is not in the sequence");
    let after = items(at, off);
    assert!(after >= before && after - before <= n, "skipped too many items");
    if after - before < n {
        assert!(done(), "gave up before the end was marked");
        assert!(after == items(segs, 0), "gave up before the end");
    }
    reach!(after - before < n && WAITED, "more than everything");
    reach!(after - before == n && n > 0 && WAITED, "waited for items to skip");
    std::mem::forget(seq);
}
/// The number of items before a position.
unsafe fn items(at: usize, off: usize) -> usize {
    let mut n = off;
    times!(k < SEGS, 4, {
        if k < at {
            n += LENS[k] as usize;
        }
    });
    n
}
