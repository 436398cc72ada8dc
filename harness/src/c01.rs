//! C01 Backtracking restores the exact input position.
use crate::bin_expr::c_bin;
use crate::comb::*;
use crate::sub::*;

crate::harnesses! {
    [4] fn q_or_once() { c_or(ONCE, POS) }
    [4] fn q_or_ref() { c_or(REF, POS) }
    [4] fn q_optional_once() { c_optional(ONCE, POS) }
    [4] fn q_optional_ref() { c_optional(REF, POS) }
    [6] fn q_repeat_once() { c_repeat(ONCE, 4, POS) }
    [6] fn q_repeat_ref() { c_repeat(REF, 4, POS) }
    [6] fn q_collect_once() { c_collect(ONCE, 4, POS) }
    [6] fn q_collect_ref() { c_collect(REF, 4, POS) }
    [4] fn q_optional_it_once() { c_optional_it(ONCE, POS) }
    [4] fn q_optional_it_ref() { c_optional_it(REF, POS) }
    [6] fn q_repeat_it_once() { c_repeat_it(ONCE, 4, POS) }
    [6] fn q_repeat_it_ref() { c_repeat_it(REF, 4, POS) }
    [8] fn t_repeat_once() { c_repeat(ONCE, 6, POS) }
    [8] fn t_collect_once() { c_collect(ONCE, 6, POS) }
    [8] fn t_repeat_it_once() { c_repeat_it(ONCE, 6, POS) }
    [8] fn t_repeat_ref() { c_repeat(REF, 6, POS) }
    [8] fn t_collect_ref() { c_collect(REF, 6, POS) }
    [8] fn t_repeat_it_ref() { c_repeat_it(REF, 6, POS) }
    [4] fn q_bin_once() { c_bin(ONCE, 2, 3, POS) }
    [4] fn q_bin_ref() { c_bin(REF, 2, 3, POS) }
}
