//! C19 Write buffers honour their capacity contract.
#[cfg(kani)]
use crate::load::{leak, once};
#[cfg(kani)]
use crate::utf8::from_utf8;
use crate::stack::{D, Z};
use crate::writer::*;

crate::harnesses! {
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [9] fn q_bytes() { history::<u8, 4>(3, 3) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [9] fn q_drop() { history::<D, 4>(3, 3) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [9] fn q_zst() { history::<Z, 4>(3, 3) }
    #[cfg_attr(kani, kani::stub(std::str::from_utf8, from_utf8))]
    [9] fn q_text() { crate::utf8::history(2, 2, 0) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [9] fn t_bytes() { history::<u8, 5>(5, 3) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [9] fn t_drop() { history::<D, 5>(5, 3) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [9] fn t_zst() { history::<Z, 4>(5, 3) }
}
