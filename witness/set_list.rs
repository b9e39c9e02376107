// the list of a set cannot be changed
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(s: &mut TimeSet<TimeValue>) {
    #[cfg(bad)] { s.0.reverse(); }
    #[cfg(not(bad))]
    let _ = s.iter();
}
