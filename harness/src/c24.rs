//! C24 Suspension never changes a parse.
use crate::bin_expr::c_bin;
use crate::comb::*;
use crate::prim::*;
use crate::sub::*;
use crate::text::*;

crate::harnesses! {
    [4] fn q_or_once() { c_or(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_or_ref() { c_or(2 * DELAY + REF, VAL | POS) }
    [4] fn q_optional_once() { c_optional(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_optional_ref() { c_optional(2 * DELAY + REF, VAL | POS) }
    [4] fn q_join_once() { c_join(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_join_ref() { c_join(2 * DELAY + REF, VAL | POS) }
    [4] fn q_map_once() { c_map(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_map_ref() { c_map(2 * DELAY + REF, VAL | POS) }
    [4] fn q_map_err_once() { c_map_err(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_map_err_ref() { c_map_err(2 * DELAY + REF, VAL | POS) }
    [4] fn q_and_then_once() { c_and_then(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_and_then_ref() { c_and_then(2 * DELAY + REF, VAL | POS) }
    [4] fn q_unify_once() { c_unify(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_unify_ref() { c_unify(2 * DELAY + REF, VAL | POS) }
    [4] fn q_unify_err_once() { c_unify_err(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_unify_err_ref() { c_unify_err(2 * DELAY + REF, VAL | POS) }
    [4] fn q_ref_once() { c_ref(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_ref_ref() { c_ref(2 * DELAY + REF, VAL | POS) }
    [4] fn q_closure_once() { c_closure(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_closure_ref() { c_closure(2 * DELAY + REF, VAL | POS) }
    [4] fn q_repeat_once() { c_repeat(DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_repeat_ref() { c_repeat(DELAY + REF, 2, VAL | POS) }
    [4] fn q_collect_once() { c_collect(DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_collect_ref() { c_collect(DELAY + REF, 2, VAL | POS) }
    [4] fn q_fold_once() { c_fold(2 * DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_fold_ref() { c_fold(2 * DELAY + REF, 2, VAL | POS) }
    [4] fn q_repeat_it_once() { c_repeat_it(2 * DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_repeat_it_ref() { c_repeat_it(2 * DELAY + REF, 2, VAL | POS) }
    [4] fn q_optional_it_once() { c_optional_it(2 * DELAY + ONCE, VAL | POS) }
    [4] fn q_optional_it_ref() { c_optional_it(2 * DELAY + REF, VAL | POS) }
    [4] fn q_map_each_once() { c_map_each(2 * DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_map_each_ref() { c_map_each(2 * DELAY + REF, 2, VAL | POS) }
    [4] fn q_map_while_once() { c_map_while(2 * DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_map_while_ref() { c_map_while(2 * DELAY + REF, 2, VAL | POS) }
    [4] fn q_scan_once() { c_scan(2 * DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_scan_ref() { c_scan(2 * DELAY + REF, 2, VAL | POS) }
    [4] fn q_try_map_once() { c_try_map(2 * DELAY + ONCE, 2, VAL | POS) }
    [4] fn q_try_map_ref() { c_try_map(2 * DELAY + REF, 2, VAL | POS) }
    [4] fn q_take_once() { c_take(2 * DELAY + ONCE, 2, false, VAL | POS) }
    [4] fn q_take_ref() { c_take(2 * DELAY + REF, 2, false, VAL | POS) }
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::push, crate::bin_expr::push1))]
    #[cfg_attr(kani, kani::stub(parcom_internals::ShortVec::pop, crate::bin_expr::pop1))]
    [4] fn q_bin_ref() { c_bin(DELAY + REF, 1, 3, VAL | POS) }
    [6] fn q_any_char() { let t = Text::<4>::any(); any_char_on(2 * DELAY + REF, &t, Slow(cut(&t, 2)), |s| s.0.pos); slept() }
    [6] fn q_the_char() { let t = Text::<4>::any(); the_char_on(2 * DELAY + REF, &t, Slow(cut(&t, 2)), |s| s.0.pos); slept() }
    [6] fn q_literal() { let t = Text::<4>::any(); atom_str_on::<_, 4, 3>(2 * DELAY + REF, false, &t, Slow(cut(&t, 2)), |s| s.0.pos); slept() }
    [6] fn q_any_item() { let t = Items::<u8, 3>::any(); any_item_on(2 * DELAY + REF, &t, Slow(cut_items(&t, 3)), |s| s.0.pos); slept() }
    [6] fn q_the_item() { let t = Items::<u8, 3>::any(); the_item_on(2 * DELAY + REF, &t, Slow(cut_items(&t, 3)), |s| s.0.pos); slept() }
    [6] fn q_items() { let t = Items::<u8, 3>::any(); atom_items_on::<_, 3, 2>(2 * DELAY + REF, SLICE, &t, Slow(cut_items(&t, 3)), |s| s.0.pos); slept() }
    [6] fn q_the_char_once() { let t = Text::<4>::any(); the_char_on(2 * DELAY + ONCE, &t, Slow(cut(&t, 2)), |s| s.0.pos); slept() }
    [6] fn q_items_once() { let t = Items::<u8, 3>::any(); atom_items_on::<_, 3, 2>(2 * DELAY + ONCE, SLICE, &t, Slow(cut_items(&t, 2)), |s| s.0.pos); slept() }
}
