// the constraints of a scheduler are those of its graph
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(g: &mut TimeGraph) {
    let s = TimeScheduler::new(g); let k = s.constraints();
    #[cfg(bad)]
    g.reset();
    #[cfg(not(bad))]
    let _ = g.size();
    let _ = k.size();
}
