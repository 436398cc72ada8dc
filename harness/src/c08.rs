//! C08 Text primitives are total and exact on any text.
use crate::comb::*;
use crate::prim::*;
use crate::text::*;

crate::harnesses! {
    [7] fn q_any_char_once() { let t = Text::<5>::any(); any_char_on(ONCE, &t, t.str(), whole(&t)) }
    [7] fn q_any_char_ref() { let t = Text::<5>::any(); any_char_on(REF, &t, t.str(), whole(&t)) }
    [7] fn q_the_char_once() { let t = Text::<5>::any(); the_char_on(ONCE, &t, t.str(), whole(&t)) }
    [7] fn q_the_char_ref() { let t = Text::<5>::any(); the_char_on(REF, &t, t.str(), whole(&t)) }
    [7] fn q_literal_once() { let t = Text::<5>::any(); atom_str_on::<_, 5, 4>(ONCE, false, &t, t.str(), whole(&t)) }
    [7] fn q_literal_ref() { let t = Text::<5>::any(); atom_str_on::<_, 5, 4>(REF, false, &t, t.str(), whole(&t)) }
    [7] fn q_string_ref() { let t = Text::<4>::any(); atom_str_on::<_, 4, 3>(REF, true, &t, t.str(), whole(&t)) }
    [10] fn t_literal_ref() { let t = Text::<8>::any(); atom_str_on::<_, 8, 7>(REF, false, &t, t.str(), whole(&t)) }
    [10] fn t_any_char_ref() { let t = Text::<8>::any(); any_char_on(REF, &t, t.str(), whole(&t)) }
    [10] fn t_the_char_ref() { let t = Text::<8>::any(); the_char_on(REF, &t, t.str(), whole(&t)) }
}
