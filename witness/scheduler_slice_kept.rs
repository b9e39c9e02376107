// the sets of a scheduler are not changed while they are read
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(s: &mut TimeScheduler<'_>, t: Timestamp) {
    let w = s.schedule();
    #[cfg(bad)]
    let _ = s.set_deadline(t);
    #[cfg(not(bad))]
    let _ = (s.schedule(), t);
    let _ = w.len();
}
