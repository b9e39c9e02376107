// the upper bound of an interval cannot be written
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(i: &mut TimeInterval<TimeValue>) {
    let b = i.upper_bound();
    #[cfg(bad)] { i.upper = b; }
    #[cfg(not(bad))]
    let _ = b;
}
