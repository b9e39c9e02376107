// a graph is not modified while a constraint of it is used
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let k = g.constraint(0, 1);
    #[cfg(bad)]
    g.reset();
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = k.map(|k| k.lower_bound());
}
