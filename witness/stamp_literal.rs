// a timestamp cannot be built from its inside
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(v: TimeValue) -> Timestamp {
    #[cfg(bad)]
    return Timestamp(v);
    #[cfg(not(bad))]
    return Timestamp::from_origin(v);
}
