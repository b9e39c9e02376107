// a graph is not dropped while a scheduler uses it
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: TimeGraph) {
    let s = TimeScheduler::new(&g);
    #[cfg(bad)]
    drop(g);
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = s.schedule();
}
