//! C13 Line and column counting matches its end-of-line definition, however cut.
use crate::loc::*;
use parcom_metrics::end_of_line::{CR, CRLF, LF};

crate::harnesses! {
    [7] fn q_lf() { counted::<LF, 5>() }
    [7] fn q_crlf() { counted::<CRLF, 5>() }
    [7] fn q_cr() { counted_cr::<5>() }
    [7] fn q_measured_lf() { measured::<LF, 4>() }
    [7] fn q_measured_cr() { measured::<CR, 4>() }
    [7] fn q_measured_crlf() { measured::<CRLF, 4>() }
    [10] fn t_lf() { counted::<LF, 8>() }
    [10] fn t_crlf() { counted::<CRLF, 8>() }
    [10] fn t_cr() { counted_cr::<8>() }
}
