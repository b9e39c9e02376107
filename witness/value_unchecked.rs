// a time value is built without checks in unsafe code only
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(a: i64) -> TimeValue {
    #[cfg(bad)]
    return TimeValue::from_ticks_unchecked(a);
    #[cfg(not(bad))]
    return unsafe { TimeValue::from_ticks_unchecked(a) };
}
