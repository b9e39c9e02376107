// a set cannot be built from a raw list
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(v: Vec<TimeInterval<TimeValue>>) -> TimeSet<TimeValue> {
    #[cfg(bad)]
    return TimeSet(v);
    #[cfg(not(bad))]
    return v.into_iter().collect();
}
