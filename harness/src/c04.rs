//! C04 Consuming and borrowing forms of every parser agree.
use crate::bin_expr::c_bin;
use crate::comb::*;
use crate::sub::*;
use crate::tape::*;
use crate::iter::*;
use crate::nd;

crate::harnesses! {
    [4] fn q_or() { forms(&Env::any(3, 2), start(), or_run) }
    [4] fn q_optional() { forms(&Env::any(3, 1), start(), optional_run) }
    [4] fn q_join() { forms(&Env::any(3, 2), start(), join_run) }
    [4] fn q_map() { forms(&Env::any(3, 1), start(), map_run) }
    [4] fn q_map_err() { forms(&Env::any(3, 1), start(), map_err_run) }
    [4] fn q_unify() { forms(&Env::any(3, 1), start(), unify_run) }
    [4] fn q_unify_err() { forms(&Env::any(3, 1), start(), unify_err_run) }
    [4] fn q_ref() { forms(&Env::any(3, 1), start(), ref_run) }
    [4] fn q_boxed() { forms(&Env::any(3, 1), start(), boxed_run) }
    [4] fn q_closure() { forms(&Env::any(3, 1), start(), closure_run) }
    [4] fn q_and_then() {
        let mut env = Env::any(3, 1);
        env.steps[N - 1] = Env::any(3, 1).steps[0];
        forms(&env, start(), and_then_run)
    }
    [5] fn q_repeat() { forms(&script_stop(3, 3, ONCE), start(), repeat_run) }
    [5] fn q_collect() { forms(&script_stop(4, 3, ONCE), start(), collect_run) }
    [5] fn q_fold() { forms(&script_stop(4, 3, ONCE), start(), fold_run) }
    [5] fn q_optional_it() { forms_it(&Env::any(3, 1), start(), 2, optional_it) }
    [5] fn q_repeat_it() { forms_it(&Env::any(3, 3), start(), 3, repeat_it) }
    [5] fn q_map_each() { forms_it(&Env::any(4, 3), start(), 3, map_each_it) }
    [5] fn q_map_while() { forms_it(&Env::any(4, 3), start(), 3, map_while_it) }
    [5] fn q_try_map() { forms_it(&Env::any(4, 3), start(), 3, try_map_it) }
    [5] fn q_scan() {
        let init = nd::u8();
        forms_it(&Env::any(4, 3), start(), 3, |m, e, p, k| scan_it(m, init, e, p, k))
    }
    [5] fn q_take() {
        let count = nd::usize_below(4);
        forms_it(&Env::any(4, 3), start(), 3, |m, e, p, k| take_it(m, count, e, p, k))
    }
    [4] fn q_bin_once() { c_bin(ONCE, 2, 3, VAL) }
    [4] fn q_bin_ref() { c_bin(REF, 2, 3, VAL) }
    [4] fn q_bin_again() { c_bin(AGAIN, 1, 3, VAL) }
}
