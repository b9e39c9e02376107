// the ticks of a time value cannot be written
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(v: &mut TimeValue) {
    #[cfg(bad)] { v.0 = i64::MIN; }
    #[cfg(not(bad))]
    let _ = v.as_ticks();
}
