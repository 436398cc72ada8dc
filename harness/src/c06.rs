//! C06 Iterative adaptors transform the item stream item by item.
use crate::comb::*;
use crate::sub::*;

crate::harnesses! {
    [6] fn q_map_each_once() { c_map_each(ONCE, 4, VAL | POS) }
    [6] fn q_map_each_ref() { c_map_each(REF, 4, VAL | POS) }
    [6] fn q_map_while_once() { c_map_while(ONCE, 4, VAL | POS) }
    [6] fn q_map_while_ref() { c_map_while(REF, 4, VAL | POS) }
    [6] fn q_scan_once() { c_scan(ONCE, 4, VAL | POS) }
    [6] fn q_scan_ref() { c_scan(REF, 4, VAL | POS) }
    [6] fn q_try_map_once() { c_try_map(ONCE, 4, VAL | POS) }
    [6] fn q_try_map_ref() { c_try_map(REF, 4, VAL | POS) }
    [6] fn q_take_once() { c_take(ONCE, 4, false, VAL | POS) }
    [6] fn q_take_ref() { c_take(REF, 4, false, VAL | POS) }
    [6] fn q_take_past_once() { c_take(ONCE, 4, true, VAL | POS) }
    [6] fn q_take_past_ref() { c_take(REF, 4, true, VAL | POS) }
    [8] fn t_map_each_once() { c_map_each(ONCE, 6, VAL | POS) }
    [8] fn t_map_while_once() { c_map_while(ONCE, 6, VAL | POS) }
    [8] fn t_scan_once() { c_scan(ONCE, 6, VAL | POS) }
    [8] fn t_try_map_once() { c_try_map(ONCE, 6, VAL | POS) }
    [8] fn t_map_each_ref() { c_map_each(REF, 6, VAL | POS) }
    [8] fn t_map_while_ref() { c_map_while(REF, 6, VAL | POS) }
    [8] fn t_scan_ref() { c_scan(REF, 6, VAL | POS) }
    [8] fn t_try_map_ref() { c_try_map(REF, 6, VAL | POS) }
}
