//! C07 Binary expressions follow precedence and associativity.
use crate::bin_expr::*;
use crate::comb::*;

const ALL: u8 = VAL | POS | FAT;

crate::harnesses! {
    [4] fn q_plain2_once() { c_bin(ONCE, 2, 3, ALL) }
    [4] fn q_plain2_ref() { c_bin(REF, 2, 3, ALL) }
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::push, crate::bin_expr::push4))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::pop, crate::bin_expr::pop4))]
    [6] fn q_bin4_ref() { c_bin(REF, 4, 3, ALL) }
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::push, crate::bin_expr::push6))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::pop, crate::bin_expr::pop6))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::new, crate::bin_expr::roomy))]
    [8] fn q_tree6_ref() { c_bin(REF, 6, 1, ALL) }
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::push, crate::bin_expr::push6))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::pop, crate::bin_expr::pop6))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::new, crate::bin_expr::roomy))]
    [8] fn t_bin6_ref() { c_bin(REF, 6, 3, ALL) }
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::push, crate::bin_expr::push8))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::pop, crate::bin_expr::pop8))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::new, crate::bin_expr::roomy))]
    [10] fn t_tree8_ref() { c_bin(REF, 8, 1, ALL) }
}
