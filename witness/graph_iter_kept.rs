// a graph is not modified while its constraints are listed
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let mut k = g.iter();
    #[cfg(bad)]
    let _ = g.propagate(((0, 1), TimeSpan::all()));
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = k.next().is_none();
}
