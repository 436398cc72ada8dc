//! C10 Primitive parsers do not depend on how the input is segmented.
use crate::comb::*;
use crate::prim::*;
use crate::text::*;

crate::harnesses! {
    [7] fn q_any_char_ref() { let t = Text::<5>::any(); any_char_on(REF, &t, cut(&t, 3), |s| s.pos) }
    [7] fn q_the_char_ref() { let t = Text::<5>::any(); the_char_on(REF, &t, cut(&t, 3), |s| s.pos) }
    [7] fn q_literal_ref() { let t = Text::<5>::any(); atom_str_on::<_, 5, 4>(REF, false, &t, cut(&t, 3), |s| s.pos) }
    [7] fn q_any_item_ref() { let t = Items::<u8, 4>::any(); any_item_on(REF, &t, cut_items(&t, 4), |s| s.pos) }
    [7] fn q_the_item_ref() { let t = Items::<u8, 4>::any(); the_item_on(REF, &t, cut_items(&t, 4), |s| s.pos) }
    [7] fn q_items_ref() { let t = Items::<u8, 4>::any(); atom_items_on::<_, 4, 3>(REF, SLICE, &t, cut_items(&t, 4), |s| s.pos) }
    [7] fn q_any_char_once() { let t = Text::<5>::any(); any_char_on(ONCE, &t, cut(&t, 2), |s| s.pos) }
    [7] fn q_the_char_once() { let t = Text::<5>::any(); the_char_on(ONCE, &t, cut(&t, 2), |s| s.pos) }
    [7] fn q_literal_once() { let t = Text::<4>::any(); atom_str_on::<_, 4, 3>(ONCE, false, &t, cut(&t, 2), |s| s.pos) }
    [7] fn q_any_item_once() { let t = Items::<u8, 4>::any(); any_item_on(ONCE, &t, cut_items(&t, 2), |s| s.pos) }
    [7] fn q_the_item_once() { let t = Items::<u8, 4>::any(); the_item_on(ONCE, &t, cut_items(&t, 2), |s| s.pos) }
    [7] fn q_items_once() { let t = Items::<u8, 4>::any(); atom_items_on::<_, 4, 3>(ONCE, SLICE, &t, cut_items(&t, 2), |s| s.pos) }
    [9] fn t_literal_ref() { let t = Text::<7>::any(); atom_str_on::<_, 7, 6>(REF, false, &t, cut(&t, 4), |s| s.pos) }
    [9] fn t_items_ref() { let t = Items::<u8, 7>::any(); atom_items_on::<_, 7, 6>(REF, SLICE, &t, cut_items(&t, 4), |s| s.pos) }
}
