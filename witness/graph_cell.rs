// the cells of a graph cannot be reached
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph, v: TimeValue) {
    #[cfg(bad)] { unsafe { *g.lower_mut(0, 0) = v; } }
    #[cfg(not(bad))]
    let _ = (g, v);
}
