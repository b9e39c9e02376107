// an interval is built without checks in unsafe code only
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(a: TimeValue, b: TimeValue) -> TimeInterval<TimeValue> {
    #[cfg(bad)]
    return TimeInterval::new_unchecked(a, b);
    #[cfg(not(bad))]
    return unsafe { TimeInterval::new_unchecked(a, b) };
}
