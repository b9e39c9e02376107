// the value of a timestamp cannot be written
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(t: &mut Timestamp, v: TimeValue) {
    #[cfg(bad)] { t.0 = v; }
    #[cfg(not(bad))]
    { *t = Timestamp::from_origin(v); }
}
