//! C15 The small-vector stack is a memory-safe stack.
use crate::stack::*;

crate::harnesses! {
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn t_drop5_0() { history::<D, 0>(5, 4) }
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn t_drop5_2() { history::<D, 2>(5, 4) }
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn q_drop_0() { history::<D, 0>(4, 4) }
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn q_drop_1() { history::<D, 1>(4, 4) }
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn q_drop_3() { history::<D, 3>(4, 5) }
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn q_zst_0() { history::<Z, 0>(4, 4) }
    #[cfg_attr(kani, kani::stub(std::ptr::copy_nonoverlapping, copy))]
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, arena::alloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::realloc, arena::realloc))]
    #[cfg_attr(kani, kani::stub(std::alloc::dealloc, arena::dealloc))]
    [9] fn q_zst_2() { history::<Z, 2>(4, 4) }
    [9] fn q_wide_0() { wide::<0>(0) }
    [9] fn q_wide_1() { wide::<1>(0) }
    [9] fn q_wide_2() { wide::<2>(3) }
    [9] fn q_wide_6() { wide::<6>(2) }
    [9] fn q_boxes_1() { boxes::<1>() }
    [9] fn q_boxes_3() { boxes::<3>() }
}
