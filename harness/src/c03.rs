//! C03 Sequencing, choice and mapping deliver exactly the sub-parsers' results.
use crate::comb::*;
use crate::sub::*;

crate::harnesses! {
    [4] fn q_or_once() { c_or(ONCE, VAL | POS) }
    [4] fn q_or_ref() { c_or(REF, VAL | POS) }
    [4] fn q_optional_once() { c_optional(ONCE, VAL | POS) }
    [4] fn q_optional_ref() { c_optional(REF, VAL | POS) }
    [4] fn q_join_once() { c_join(ONCE, VAL | POS) }
    [4] fn q_join_ref() { c_join(REF, VAL | POS) }
    [4] fn q_map_once() { c_map(ONCE, VAL | POS) }
    [4] fn q_map_ref() { c_map(REF, VAL | POS) }
    [4] fn q_map_err_once() { c_map_err(ONCE, VAL | POS) }
    [4] fn q_map_err_ref() { c_map_err(REF, VAL | POS) }
    [4] fn q_and_then_once() { c_and_then(ONCE, VAL | POS) }
    [4] fn q_and_then_ref() { c_and_then(REF, VAL | POS) }
    [4] fn q_unify_once() { c_unify(ONCE, VAL | POS) }
    [4] fn q_unify_ref() { c_unify(REF, VAL | POS) }
    [4] fn q_unify_err_once() { c_unify_err(ONCE, VAL | POS) }
    [4] fn q_unify_err_ref() { c_unify_err(REF, VAL | POS) }
    [4] fn q_ref_once() { c_ref(ONCE, VAL | POS) }
    [4] fn q_ref_ref() { c_ref(REF, VAL | POS) }
    [4] fn q_boxed_once() { c_boxed(ONCE, VAL | POS) }
    [4] fn q_boxed_ref() { c_boxed(REF, VAL | POS) }
    [4] fn q_closure_once() { c_closure(ONCE, VAL | POS) }
    [4] fn q_closure_ref() { c_closure(REF, VAL | POS) }
}
