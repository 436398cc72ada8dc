//! C12 Measured sequences report metrics of exactly the consumed prefix.
use crate::mem::*;
use crate::text::*;
use parcom_core::measured::IntoMeasured;

crate::harnesses! {
    [8] fn q_text() { let t = Text::<4>::any(); metered(&t, t.str().into_measured::<Saw<8>>(), 4, seen(Seen::default(), &t.b)) }
    [8] fn q_text_with() { let t = Text::<4>::any(); let m = started::<8>(); metered(&t, t.str().into_measured_with::<Saw<8>>(m), 4, seen(m, &t.b)) }
    [8] fn q_bytes() { let t = Items::<u8, 4>::any(); metered(&t, t.slice().into_measured::<Saw<8>>(), 4, seen(Seen::default(), &t.b)) }
    [8] fn q_bytes_with() { let t = Items::<u8, 4>::any(); let m = started::<8>(); metered(&t, t.slice().into_measured_with::<Saw<8>>(m), 4, seen(m, &t.b)) }
    [8] fn q_count() { let t = Items::<u8, 4>::any(); metered(&t, t.slice().into_measured::<usize>(), 4, counted(0)) }
    [8] fn q_count_unsized() { let t = Units::any(); metered(&t, t.slice().into_measured::<usize>(), 4, counted(0)) }
    [8] fn q_length() { measure_is_length() }
    [8] fn t_text() { let t = Text::<6>::any(); metered(&t, t.str().into_measured::<Saw<8>>(), 5, seen(Seen::default(), &t.b)) }
    [8] fn t_bytes() { let t = Items::<u8, 6>::any(); metered(&t, t.slice().into_measured::<Saw<8>>(), 5, seen(Seen::default(), &t.b)) }
}
