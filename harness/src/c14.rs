//! C14 Locations have a lawful total order consistent with equality.
use crate::loc::*;
use parcom_metrics::end_of_line::{CR, CRLF, LF};

crate::harnesses! {
    [7] fn q_order_lf() { order::<LF>() }
    [7] fn q_order_cr() { order::<CR>() }
    [7] fn q_order_crlf() { order::<CRLF>() }
    [7] fn q_grows_lf() { grows::<LF, 4>() }
    [7] fn q_grows_cr() { grows::<CR, 4>() }
    [7] fn q_grows_crlf() { grows::<CRLF, 4>() }
    [10] fn t_grows_crlf() { grows::<CRLF, 7>() }
}
