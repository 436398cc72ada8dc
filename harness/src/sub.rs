//! The combinators over scripted sub-parsers: one scenario each, comparing real code and model on
//! the chosen aspects.
use crate::comb::*;
use crate::iter::*;
use crate::tape::*;
use crate::{nd, reach};

pub fn start() -> u32 {
    nd::u8() as u32
}
/// A script of `limit` calls whose last one ends a repetition.
pub fn script_stop(kinds: u8, limit: usize, mode: Mode) -> Env {
    let env = Env::any(kinds, limit).delays(mode >> 4);
    nd::assume(env.steps[limit - 1].kind != OK);
    env
}
pub fn script(kinds: u8, limit: usize, mode: Mode) -> Env {
    Env::any(kinds, limit).delays(mode >> 4)
}

/// Nothing was asked of the input except what the aspects compare; with delays, at least one step
/// really suspended.
fn delayed(mode: Mode, env: &Env) -> bool {
    mode >> 4 == 0 || env.pendings.get() > 0
}

pub fn c_or(mode: Mode, aspect: u8) {
    let env = script(3, 2, mode);
    let pos = start();
    let s = or_run(mode, &env, pos);
    let w = or_model(&env.steps, pos);
    compare(&s, &w, aspect);
    reach!(w.calls == 2 && w.res.is_ok() && env.steps[0].adv > 0, "second alternative succeeds after the first consumed");
    reach!(w.fatal.is_some() && w.calls == 2, "second alternative fails fatally");
    reach!(w.res.is_err() && w.fatal.is_none(), "both miss");
}
pub fn c_optional(mode: Mode, aspect: u8) {
    let env = script(3, 1, mode);
    let pos = start();
    let s = optional_run(mode, &env, pos);
    let w = optional_model(&env.steps, pos);
    compare(&s, &w, aspect);
    reach!(w.res.is_ok() && env.steps[0].kind == MISS && env.steps[0].adv > 0, "miss after consuming");
    reach!(w.fatal.is_some(), "fatal");
}
pub fn c_repeat(mode: Mode, limit: usize, aspect: u8) {
    let env = script_stop(3, limit, mode);
    let pos = start();
    let s = repeat_run(mode, &env, pos);
    let w = repeat_model(&env.steps, pos);
    compare(&s, &w, aspect);
    reach!(w.res.is_ok() && w.calls == limit && env.steps[limit - 1].adv > 0, "full run, then a miss that consumed");
    reach!(w.fatal.is_some() && w.calls == limit, "fatal at the end");
}
pub fn c_collect(mode: Mode, limit: usize, aspect: u8) {
    let env = script_stop(4, limit, mode);
    let pos = start();
    let s = collect_run(mode, &env, pos);
    let w = collect_model(&env.steps, pos);
    compare(&s, &w, aspect);
    reach!(w.res.is_ok() && w.calls == limit && env.steps[limit - 1].kind == MISS, "full run, then a miss");
    reach!(w.res.is_ok() && w.calls == limit && env.steps[limit - 1].kind == END, "full run, then the end");
    reach!(w.fatal.is_some() && w.calls == limit, "fatal at the end");
}
pub fn c_optional_it(mode: Mode, aspect: u8) {
    let env = script(3, 2, mode);
    let pos = start();
    let s = optional_it(mode, &env, pos, 2);
    let w = optional_it_model(&env.steps, pos, 2);
    compare_it(&s, &w, aspect);
    reach!(w.n == 2 && w.kind_at(0) == NONE && env.steps[0].adv > 0, "miss after consuming");
    reach!(w.fatal.is_some(), "fatal");
}
pub fn c_repeat_it(mode: Mode, k: usize, aspect: u8) {
    let env = script(3, k, mode);
    let pos = start();
    let s = repeat_it(mode, &env, pos, k);
    let w = repeat_it_model(&env.steps, pos, k);
    compare_it(&s, &w, aspect);
    reach!(w.n == k && w.kind_at(k - 1) == NONE && env.steps[k - 1].adv > 0, "miss after consuming");
    reach!(w.fatal.is_some() && w.n == k, "fatal at the end");
}


macro_rules! single {
    ($($n:ident $run:ident $model:ident $calls:literal;)*) => {$(
        pub fn $n(mode: Mode, aspect: u8) {
            let env = script(3, $calls, mode);
            let pos = start();
            let s = $run(mode, &env, pos);
            let w = $model(&env.steps, pos);
            compare(&s, &w, aspect);
            reach!(w.res.is_ok() && w.calls == $calls && delayed(mode, &env), "success");
            reach!(w.res.is_err() && w.fatal.is_none(), "recoverable failure");
            reach!(w.fatal.is_some() && w.calls == $calls, "fatal failure");
        }
    )*};
}
single! {
    c_join join_run join_model 2;
    c_map map_run map_model 1;
    c_map_err map_err_run map_err_model 1;
    c_unify unify_run unify_model 1;
    c_unify_err unify_err_run unify_err_model 1;
    c_ref ref_run plain_model 1;
    c_boxed boxed_run plain_model 1;
    c_closure closure_run plain_model 1;
}
/// The user function's outcome is arbitrary as well.
pub fn c_and_then(mode: Mode, aspect: u8) {
    let mut env = script(3, 1, mode);
    env.steps[N - 1] = Step { kind: nd::below(3), val: nd::u8(), adv: 0 };
    let pos = start();
    let s = and_then_run(mode, &env, pos);
    let w = and_then_model(&env.steps, pos);
    compare(&s, &w, aspect);
    reach!(w.res.is_ok() && delayed(mode, &env), "success");
    reach!(env.steps[0].kind == OK && w.fatal.is_some(), "the function fails fatally");
    reach!(env.steps[0].kind == OK && w.res.is_err() && w.fatal.is_none(), "the function fails recoverably");
}
pub fn c_fold(mode: Mode, limit: usize, aspect: u8) {
    let mut env = script_stop(4, limit, mode);
    env.steps[N - 1].val = nd::u8();
    let pos = start();
    let s = fold_run(mode, &env, pos);
    let w = fold_model(&env.steps, pos);
    compare(&s, &w, aspect);
    reach!(w.res.is_ok() && w.calls == limit && delayed(mode, &env), "full run, then the end");
    reach!(w.fatal.is_some() && w.calls == limit, "fatal at the end");
    reach!(w.res.is_err() && w.fatal.is_none() && w.calls == limit, "recoverable at the end");
}

/// `k` requests; the count of a limit is arbitrary (0..=k).
pub fn c_take(mode: Mode, k: usize, past: bool, aspect: u8) {
    let mut env = script(4, k, mode);
    let count = nd::usize_below(k + 1);
    if past {
        // asking on after the end is only specified where the limit itself ended the stream
        let mut i = 0;
        while i < k {
            env.steps[i].kind = OK;
            i += 1;
        }
    }
    let pos = start();
    let s = if past { take_past(mode, count, &env, pos, k) } else { take_it(mode, count, &env, pos, k) };
    let w = take_model(&env.steps, pos, k, count, past);
    compare_it(&s, &w, aspect);
    reach!(count == 1 && w.n >= 2 && w.kind_at(1) == NONE && w.calls == 1, "the limit ends the stream");
    reach!(w.n == k && w.kind_at(k - 1) == ITEM, "all items");
}
macro_rules! items {
    ($($n:ident $run:ident $model:ident;)*) => {$(
        pub fn $n(mode: Mode, k: usize, aspect: u8) {
            let env = script(4, k, mode);
            let pos = start();
            let s = $run(mode, &env, pos, k);
            let w = $model(&env.steps, pos, k);
            compare_it(&s, &w, aspect);
            reach!(w.n == k && w.kind_at(k - 1) == ITEM && env.steps[0].val != env.steps[1].val && delayed(mode, &env), "all items");
            reach!(w.n == k && w.kind_at(k - 1) == NONE, "an end");
            reach!(w.n == k && w.fatal.is_some(), "a fatal failure");
        }
    )*};
}
items! {
    c_map_each map_each_it map_each_model;
    c_map_while map_while_it map_while_model;
    c_try_map try_map_it try_map_model;
}
pub fn c_scan(mode: Mode, k: usize, aspect: u8) {
    let env = script(4, k, mode);
    let init = nd::u8();
    let pos = start();
    let s = scan_it(mode, init, &env, pos, k);
    let w = scan_model(&env.steps, pos, k, init);
    compare_it(&s, &w, aspect);
    reach!(w.n == k && w.kind_at(k - 1) == ITEM && delayed(mode, &env), "all items");
    reach!(w.n == k && w.fatal.is_some(), "a fatal failure");
}

/// C04: the single-use run, the reusable run and a second reusable run, on the same script.
pub fn forms(env: &Env, pos: u32, run: impl Fn(Mode, &Env, u32) -> Seen) {
    let a = run(ONCE, env, pos);
    env.reset();
    let b = run(REF, env, pos);
    env.reset();
    let c = run(AGAIN, env, pos);
    same(&a, &b);
    same(&b, &c);
    reach!(a.res.is_ok() && a.calls > 0, "success");
    reach!(a.res.is_err() && a.calls == env.limit, "failure");
}
pub fn forms_it(env: &Env, pos: u32, k: usize, run: impl Fn(Mode, &Env, u32, usize) -> Trace) {
    let a = run(ONCE, env, pos, k);
    env.reset();
    let b = run(REF, env, pos, k);
    env.reset();
    let c = run(AGAIN, env, pos, k);
    same_it(&a, &b);
    same_it(&b, &c);
    reach!(a.n == k && a.err.is_none(), "all answers");
    reach!(a.err.is_some(), "a failure");
}
