// the sets of a scheduler are only read
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(s: &mut TimeScheduler<'_>, w: TimeSlots) {
    #[cfg(bad)] { s.schedule()[0] = w; }
    #[cfg(not(bad))]
    let _ = (s.schedule(), w);
}
