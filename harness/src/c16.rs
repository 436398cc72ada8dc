//! C16 Notifications are never lost and never spurious, under any schedule.
use crate::wake::*;

crate::harnesses! {
    [6] fn q_alone() { history(4, 0, 0, 0, false) }
    [6] fn q_race() { history(1, 1, 1, 1, false) }
    [6] fn q_callbacks() { history(3, 0, 0, 0, true) }
    [6] fn t_alone() { history(5, 0, 0, 0, true) }
    [6] fn t_races() { history(0, 2, 1, 1, false) }
    [6] fn t_deep() { history(0, 1, 0, 2, false) }
}
