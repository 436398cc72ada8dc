//! C17 A streamed source is delivered losslessly and in order.
use crate::load::*;

crate::harnesses! {
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_loads3() { history::<4, false>(3, 3, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_forced() { history::<4, false>(2, 2, 1, true) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_small() { history::<2, false>(4, 2, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_iterator() { iterator::<4, 3>(3) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_moves() { moves::<2>(2, 2) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_stays() { stays::<2>(3, 2) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_moves3() { moves::<3>(3, 2) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_loads4() { history::<4, false>(4, 3, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_forced4() { history::<4, false>(4, 3, 1, true) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_loads5() { history::<5, false>(5, 3, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_iterator4() { iterator::<4, 4>(4) }
}
