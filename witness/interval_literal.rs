// an interval cannot be built from raw bounds
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(a: TimeValue, b: TimeValue) -> TimeInterval<TimeValue> {
    #[cfg(bad)]
    return TimeInterval { lower: a, upper: b };
    #[cfg(not(bad))]
    return TimeInterval::new(a, b);
}
