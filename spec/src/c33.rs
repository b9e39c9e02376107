// Nothing is asserted on the text: the obligations are that no path of the printing code panics, overflows or leaves its arrays
use crate::graphs::*;
use crate::rt::mk_scheduler;
use core::fmt::{Debug, Display, Formatter};
fn shown<T: Display>(t: &T) { let mut f: Formatter<'static> = any_raw(); let _ = Display::fmt(t, &mut f); }
fn debugged<T: Debug>(t: &T) { let mut f: Formatter<'static> = any_raw(); let _ = Debug::fmt(t, &mut f); }
pub fn c33_value() { let t: TimeValue = any(); shown(&t) }
pub fn c33_value_debug() { let t: TimeValue = any(); debugged(&t) }
pub fn c33_value_text() { let t: TimeValue = any(); let _ = t.format_timepoint("%F %T"); }
pub fn c33_stamp() { let t: Timestamp = any(); shown(&t) }
pub fn c33_stamp_debug() { let t: Timestamp = any(); debugged(&t) }
pub fn c33_stamp_text() { let t: Timestamp = any(); let _ = t.format_timepoint("%F %T"); }
pub fn c33_interval_value() { let t: TimeSpan = any(); shown(&t) }
pub fn c33_interval_value_debug() { let t: TimeSpan = any(); debugged(&t) }
pub fn c33_interval_stamp() { let t: TimeSlot = any(); shown(&t) }
pub fn c33_interval_stamp_debug() { let t: TimeSlot = any(); debugged(&t) }
pub fn c33_interval_stamp_text() { let t: TimeSlot = any(); let _ = t.format_timeset("%F %T"); }
pub fn c33_set_value() { let t: TimeSpans = any(); shown(&t) }
pub fn c33_set_value_debug() { let t: TimeSpans = any(); debugged(&t) }
pub fn c33_set_stamp() { let t: TimeSlots = any(); shown(&t) }
pub fn c33_set_stamp_debug() { let t: TimeSlots = any(); debugged(&t) }
pub fn c33_set_stamp_text() { let t: TimeSlots = any(); let _ = t.format_timeset("%F %T"); }
fn graph_text<const P: usize>() {
    let (g, _) = loose::<P>();
    shown(&g); debugged(&g);
    for k in g.iter() { shown(&k); debugged(&k) }
}
pub fn c33_graph_0() { graph_text::<0>() }
pub fn c33_graph_1() { graph_text::<1>() }
pub fn c33_graph_2() { graph_text::<2>() }
pub fn c33_graph_3() { graph_text::<3>() }
fn plan<const P: usize>(f: impl FnOnce(&TimeScheduler<'_>)) {
    unroll();
    let (g, _) = loose::<P>();
    let mut sets = Vec::new();
    for _ in 0..P { let gone: bool = any(); let t: TimeSlot = nonempty(); sets.push(if gone { TimeSlots::empty() } else { TimeSlots::from(t) }) }
    let s: TimeScheduler<'_> = mk_scheduler(&g, sets);
    f(&s)
}
pub fn c33_plan_0() { plan::<0>(|s| { shown(s); debugged(s); let _ = s.format_timeset("%F %T"); }) }
pub fn c33_plan_shown() { plan::<2>(|s| shown(s)) }
pub fn c33_plan_debug() { plan::<2>(|s| debugged(s)) }
pub fn c33_plan_text() { plan::<2>(|s| { let _ = s.format_timeset("%F %T"); }) }
