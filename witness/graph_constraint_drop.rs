// a graph is not dropped while a constraint of it is used
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: TimeGraph) {
    let k = g.constraint(0, 1);
    #[cfg(bad)]
    drop(g);
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = k.map(|k| k.lower_bound());
}
