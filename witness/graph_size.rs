// the size of a graph cannot be written
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    #[cfg(bad)] { g.size = 3; }
    #[cfg(not(bad))]
    g.resize(3);
}
