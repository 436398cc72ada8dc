//! C18 Load reports account for every item.
use crate::load::*;

crate::harnesses! {
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_loads3() { history::<4, true>(3, 3, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_forced() { history::<4, true>(2, 2, 1, true) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn q_small() { history::<2, true>(4, 2, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_loads4() { history::<4, true>(4, 3, 0, false) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_forced4() { history::<4, true>(4, 3, 1, true) }
    #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, leak))]
    #[cfg_attr(kani, kani::stub(std::sync::Once::call_once_force, once))]
    [6] fn t_loads5() { history::<5, true>(5, 3, 0, false) }
}
