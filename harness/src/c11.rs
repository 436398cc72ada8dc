//! C11 In-memory sequences: advance, rewind, peek and segments are faithful.
use crate::mem::*;
use crate::prim::*;
use crate::text::*;

crate::harnesses! {
    [7] fn q_text() { let t = Text::<5>::any(); history(&t, t.str(), 4) }
    [7] fn q_bytes() { let t = Items::<u8, 4>::any(); history(&t, t.slice(), 4) }
    [7] fn q_wide() { let t = keyed::<4>(); history(&t, t.slice(), 4) }
    [7] fn q_unsized() { let t = Units::any(); history(&t, t.slice(), 4) }
    [9] fn t_text() { let t = Text::<6>::any(); history(&t, t.str(), 5) }
    [9] fn t_bytes() { let t = Items::<u8, 6>::any(); history(&t, t.slice(), 5) }
    [9] fn t_unsized() { let t = Units::any(); history(&t, t.slice(), 5) }
}
