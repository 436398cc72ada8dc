use parcom_internals::{future::notify::Notify, verif};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::*;
// One segment is appended and signalled at the K-th access of the reader; the end is never marked.
static mut K: usize = 0;
static mut AT: usize = 0;
static mut HAVE: usize = 0;
static mut SIGNAL: *const Notify = std::ptr::null();
fn step() {
    unsafe {
        AT += 1;
        if AT == K + 1 {
            HAVE = 1;
            (*SIGNAL).send();
        }
    }
}
static DATA: [u8; 2] = [7, 8];
struct Src;
impl SequenceSource for Src {
    type Item = u8;
    type Error = Never;
    type Next<'a, C> = Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = Never>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = Never>,
    {
        ready(control.finish())
    }
}
struct NoLoader;
impl SequenceLoader for NoLoader {
    type Length = usize;
    type Segment = [u8];
    type Error = Never;
    type Load<'a> = Ready<Result<LoadInfo, Never>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        unreachable!()
    }
}
struct Builder;
impl SequenceBuilder<Src> for Builder {
    type Length = usize;
    type Segment = [u8];
    type Buffer = Buffer;
    type Loader = NoLoader;
    fn build(&self, _: Src) -> (Buffer, NoLoader) {
        (Buffer(0), NoLoader)
    }
}
struct Buffer(usize);
impl SequenceBuffer for Buffer {
    type Length = usize;
    type Segment = [u8];
    type Iter<'a> = It<'a>;
    fn advance(&mut self, n: usize) -> usize {
        unsafe { verif::STEP() }
        let d = n.min(unsafe { HAVE } * 2 - self.0);
        self.0 += d;
        n - d
    }
    fn segments(&self) -> It<'_> {
        It(self.0, std::marker::PhantomData)
    }
}
struct It<'a>(usize, std::marker::PhantomData<&'a ()>);
impl<'a> Iterator for It<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        unsafe { verif::STEP() }
        if unsafe { HAVE } * 2 > self.0 {
            let s = &DATA[self.0..];
            self.0 = 2;
            Some(s)
        } else {
            None
        }
    }
}
struct Flag(std::sync::atomic::AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
fn drive<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let flag = Arc::new(Flag(true.into()));
    let w = flag.clone().into();
    loop {
        if !flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) {
            // nothing else happens in this schedule: all that is left is the append, if it is still due
            unsafe {
                assert!(HAVE == 0, "waiting although the segment was appended and signalled");
                HAVE = 1;
                AT = 1000;
                (*SIGNAL).send();
            }
            assert!(flag.0.load(std::sync::atomic::Ordering::SeqCst), "not woken");
        }
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return v;
        }
    }
}
fn race(k: usize, advance: bool) {
    if let Err(e) = std::panic::catch_unwind(|| schedule(k, advance)) {
        if !e.is::<i32>() {
            std::panic::resume_unwind(e)
        }
    }
}
fn schedule(k: usize, advance: bool) {
    let mut seq = DefaultSequence::<Src, Builder>::new(Buffer(0), NoLoader);
    let (signal, _flag) = seq.verif_signals();
    unsafe {
        K = k;
        AT = 0;
        HAVE = 0;
        SIGNAL = &*signal;
        // (the lock is the reader's: not a schedule)
        verif::BLOCKED = || std::panic::resume_unwind(Box::new(0i32));
        verif::STEP = step;
    }
    if advance {
        drive(seq.advance(1).into_future());
    } else {
        let mut it = seq.segments();
        assert_eq!(drive(it.next(0).into_future()), Some(&DATA[..]));
    }
    unsafe { verif::STEP = || () }
}
