//! C09 Item primitives are total and exact on any slice.
use crate::comb::*;
use crate::prim::*;
use crate::text::*;

crate::harnesses! {
    [7] fn q_any_item_once() { let t = Items::<u8, 5>::any(); any_item_on(ONCE, &t, t.slice(), whole_items(&t)) }
    [7] fn q_any_item_ref() { let t = Items::<u8, 5>::any(); any_item_on(REF, &t, t.slice(), whole_items(&t)) }
    [7] fn q_the_item_once() { let t = Items::<u8, 5>::any(); the_item_on(ONCE, &t, t.slice(), whole_items(&t)) }
    [7] fn q_the_item_ref() { let t = Items::<u8, 5>::any(); the_item_on(REF, &t, t.slice(), whole_items(&t)) }
    [7] fn q_slice_once() { let t = Items::<u8, 5>::any(); atom_items_on::<_, 5, 4>(ONCE, SLICE, &t, t.slice(), whole_items(&t)) }
    [7] fn q_slice_ref() { let t = Items::<u8, 5>::any(); atom_items_on::<_, 5, 4>(REF, SLICE, &t, t.slice(), whole_items(&t)) }
    [7] fn q_vec_ref() { let t = Items::<u8, 4>::any(); atom_items_on::<_, 4, 3>(REF, VEC, &t, t.slice(), whole_items(&t)) }
    [7] fn q_array_ref() { let t = Items::<u8, 4>::any(); atom_items_on::<_, 4, 3>(REF, ARRAY, &t, t.slice(), whole_items(&t)) }
    [7] fn q_keyed_once() { keyed_on(ONCE) }
    [7] fn q_keyed_ref() { keyed_on(REF) }
    [10] fn t_slice_ref() { let t = Items::<u8, 8>::any(); atom_items_on::<_, 8, 7>(REF, SLICE, &t, t.slice(), whole_items(&t)) }
}
