//! C21 Reading a live sequence misses nothing, whatever the loader does when.
use crate::live::*;
use crate::load::*;

crate::harnesses! {
    [6] fn q_read1() { unsafe { read(1, 1) } }
    [6] fn q_read2() { unsafe { read(2, 1) } }
    [6] fn q_skip1() { unsafe { skip(1) } }
    [6] fn q_skip2() { unsafe { skip(2) } }
    [6] fn t_read22() { unsafe { read(2, 2) } }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_buffer() { moves::<2>(2, 2) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_stays() { stays::<2>(3, 2) }
}
