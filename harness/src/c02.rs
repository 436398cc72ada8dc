//! C02 A fatal error stops the parse and is never swallowed.
use crate::bin_expr::c_bin;
use crate::comb::*;
use crate::sub::*;

crate::harnesses! {
    [4] fn q_or_once() { c_or(ONCE, FAT) }
    [4] fn q_or_ref() { c_or(REF, FAT) }
    [4] fn q_optional_once() { c_optional(ONCE, FAT) }
    [4] fn q_optional_ref() { c_optional(REF, FAT) }
    [4] fn q_join_once() { c_join(ONCE, FAT) }
    [4] fn q_join_ref() { c_join(REF, FAT) }
    [4] fn q_map_once() { c_map(ONCE, FAT) }
    [4] fn q_map_ref() { c_map(REF, FAT) }
    [4] fn q_map_err_once() { c_map_err(ONCE, FAT) }
    [4] fn q_map_err_ref() { c_map_err(REF, FAT) }
    [4] fn q_and_then_once() { c_and_then(ONCE, FAT) }
    [4] fn q_and_then_ref() { c_and_then(REF, FAT) }
    [4] fn q_unify_once() { c_unify(ONCE, FAT) }
    [4] fn q_unify_ref() { c_unify(REF, FAT) }
    [4] fn q_unify_err_once() { c_unify_err(ONCE, FAT) }
    [4] fn q_unify_err_ref() { c_unify_err(REF, FAT) }
    [4] fn q_ref_once() { c_ref(ONCE, FAT) }
    [4] fn q_ref_ref() { c_ref(REF, FAT) }
    [4] fn q_closure_once() { c_closure(ONCE, FAT) }
    [4] fn q_closure_ref() { c_closure(REF, FAT) }
    [5] fn q_repeat_once() { c_repeat(ONCE, 3, FAT) }
    [5] fn q_repeat_ref() { c_repeat(REF, 3, FAT) }
    [5] fn q_collect_once() { c_collect(ONCE, 3, FAT) }
    [5] fn q_collect_ref() { c_collect(REF, 3, FAT) }
    [5] fn q_fold_once() { c_fold(ONCE, 3, FAT) }
    [5] fn q_fold_ref() { c_fold(REF, 3, FAT) }
    [5] fn q_repeat_it_once() { c_repeat_it(ONCE, 3, FAT) }
    [5] fn q_repeat_it_ref() { c_repeat_it(REF, 3, FAT) }
    [4] fn q_optional_it_once() { c_optional_it(ONCE, FAT) }
    [4] fn q_optional_it_ref() { c_optional_it(REF, FAT) }
    [5] fn q_map_each_once() { c_map_each(ONCE, 3, FAT) }
    [5] fn q_map_each_ref() { c_map_each(REF, 3, FAT) }
    [5] fn q_map_while_once() { c_map_while(ONCE, 3, FAT) }
    [5] fn q_map_while_ref() { c_map_while(REF, 3, FAT) }
    [5] fn q_scan_once() { c_scan(ONCE, 3, FAT) }
    [5] fn q_scan_ref() { c_scan(REF, 3, FAT) }
    [5] fn q_try_map_once() { c_try_map(ONCE, 3, FAT) }
    [5] fn q_try_map_ref() { c_try_map(REF, 3, FAT) }
    [5] fn q_take_once() { c_take(ONCE, 3, false, FAT) }
    [5] fn q_take_ref() { c_take(REF, 3, false, FAT) }
    [4] fn q_bin_once() { c_bin(ONCE, 2, 3, FAT) }
    [4] fn q_bin_ref() { c_bin(REF, 2, 3, FAT) }
}
