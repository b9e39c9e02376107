// a graph is not modified while a constraint of it is used
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let k = { let mut i = g.constraints_to(0); i.next() };
    #[cfg(bad)]
    g.resize(1);
    #[cfg(not(bad))]
    let _ = g.size();
    if let Some(k) = k { let _ = k.upper_bound(); }
}
