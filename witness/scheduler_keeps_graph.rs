// a graph is not modified while a scheduler uses it
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let s = TimeScheduler::new(g);
    #[cfg(bad)]
    g.reset();
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = s.schedule();
}
