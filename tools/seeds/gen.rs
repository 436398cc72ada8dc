use parcom_sequence_core::*;
use parcom_sequences::{generic::*, BufferStrategy};
struct Cap(usize);
impl BufferStrategy for Cap {
    fn calc_capacity(&self, min: usize) -> usize {
        self.0.max(min)
    }
}
enum Act {
    Write(usize, Vec<u8>),
    Fail(usize, Vec<u8>),
    Finish,
}
use Act::*;
struct Script(std::collections::VecDeque<Act>);
impl SequenceSource for Script {
    type Item = u8;
    type Error = u8;
    type Next<'a, C> = Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = u8>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = u8>,
    {
        ready(match self.0.pop_front().unwrap_or(Finish) {
            Finish => control.finish(),
            Write(n, v) => {
                let mut w = control.request_writer(n);
                v.into_iter().for_each(|x| w.push_item(x).unwrap());
                w.advance()
            }
            Fail(n, v) => {
                let mut w = control.request_writer(n);
                v.into_iter().for_each(|x| w.push_item(x).unwrap());
                w.cancel(1)
            }
        })
    }
}
type Buf = GenericSequenceBuffer<u8>;
type Loader = GenericSequenceLoader<u8, Script, Cap>;
fn gen<const N: usize>(cap: usize, acts: [Act; N]) -> (Buf, Loader) {
    GenericSequenceBuilder::verif_new(Cap(cap)).build(Script(acts.into()))
}
fn load(l: &mut Loader) -> Option<(usize, usize, usize, bool)> {
    block_on(l.load()).ok().map(|i| (i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done()))
}
fn all(b: &Buf) -> Vec<u8> {
    b.segments().flatten().copied().collect()
}
