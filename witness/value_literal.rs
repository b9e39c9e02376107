// a time value cannot be built from raw ticks
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(a: i64) -> TimeValue {
    #[cfg(bad)]
    return TimeValue(a);
    #[cfg(not(bad))]
    return TimeValue::from_ticks(a);
}
