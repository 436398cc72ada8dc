//! C20 The UTF-8 validator passes exactly valid text, however it is chunked.
use crate::utf8::*;

crate::harnesses! {
    #[cfg_attr(kani, kani::stub(std::str::from_utf8, from_utf8))]
    [10] fn q_chunks3() { history(3, 3, 0) }
    #[cfg_attr(kani, kani::stub(std::str::from_utf8, from_utf8))]
    [9] fn q_waits() { history(2, 2, 1) }
    #[cfg_attr(kani, kani::stub(std::str::from_utf8, from_utf8))]
    [17] fn t_chunks4() { history(4, 3, 0) }
    #[cfg_attr(kani, kani::stub(std::str::from_utf8, from_utf8))]
    [17] fn t_long() { history(3, 4, 1) }
}
