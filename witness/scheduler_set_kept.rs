// a set of a scheduler is not changed while it is read
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(s: &mut TimeScheduler<'_>) {
    let w = s.scheduling(0);
    #[cfg(bad)]
    let _ = s.retain(0, TimeSlot::all());
    #[cfg(not(bad))]
    let _ = s.schedule();
    let _ = w.map(|w| w.is_empty());
}
