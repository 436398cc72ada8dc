//! C05 Repetition and collection are greedy, ordered and complete.
use crate::comb::*;
use crate::sub::*;

crate::harnesses! {
    [6] fn q_repeat_once() { c_repeat(ONCE, 4, VAL | POS) }
    [6] fn q_repeat_ref() { c_repeat(REF, 4, VAL | POS) }
    [6] fn q_collect_once() { c_collect(ONCE, 4, VAL | POS) }
    [6] fn q_collect_ref() { c_collect(REF, 4, VAL | POS) }
    [6] fn q_fold_once() { c_fold(ONCE, 4, VAL | POS) }
    [6] fn q_fold_ref() { c_fold(REF, 4, VAL | POS) }
    [6] fn q_repeat_it_once() { c_repeat_it(ONCE, 4, VAL | POS) }
    [6] fn q_repeat_it_ref() { c_repeat_it(REF, 4, VAL | POS) }
    [4] fn q_optional_it_once() { c_optional_it(ONCE, VAL | POS) }
    [4] fn q_optional_it_ref() { c_optional_it(REF, VAL | POS) }
    [8] fn t_repeat_once() { c_repeat(ONCE, 6, VAL | POS) }
    [8] fn t_collect_once() { c_collect(ONCE, 6, VAL | POS) }
    [8] fn t_fold_once() { c_fold(ONCE, 6, VAL | POS) }
    [8] fn t_repeat_it_once() { c_repeat_it(ONCE, 6, VAL | POS) }
    [8] fn t_repeat_ref() { c_repeat(REF, 6, VAL | POS) }
    [8] fn t_collect_ref() { c_collect(REF, 6, VAL | POS) }
    [8] fn t_fold_ref() { c_fold(REF, 6, VAL | POS) }
    [8] fn t_repeat_it_ref() { c_repeat_it(REF, 6, VAL | POS) }
}
