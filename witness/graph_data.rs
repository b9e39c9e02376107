// the bounds of a graph cannot be written
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph, v: TimeValue) {
    #[cfg(bad)] { g.data[0] = v; }
    #[cfg(not(bad))]
    let _ = (g.timespan(0, 0), v);
}
