// the clone of a scheduler keeps its graph too
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let s = TimeScheduler::new(g).clone();
    #[cfg(bad)]
    g.reset();
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = s.schedule();
}
