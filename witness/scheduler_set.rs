// a set of a scheduler is only read
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(s: &mut TimeScheduler<'_>, v: Timestamp) {
    #[cfg(bad)] { if let Some(x) = s.scheduling(0) { x.truncate_before(v); } }
    #[cfg(not(bad))]
    let _ = (s.scheduling(0), v);
}
