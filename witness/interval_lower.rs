// the lower bound of an interval cannot be written
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(i: &mut TimeInterval<TimeValue>) {
    let b = i.lower_bound();
    #[cfg(bad)] { i.lower = b; }
    #[cfg(not(bad))]
    let _ = b;
}
