// a graph is not propagated while a scheduler uses it
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let mut s = TimeScheduler::new(g);
    #[cfg(bad)]
    let _ = g.propagate(((0, 1), TimeSpan::all()));
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = s.retain(0, TimeSlot::all());
}
