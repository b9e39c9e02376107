// a scheduler does not outlive its graph
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f() -> usize {
    let kept = TimeGraph::with_size(2);
    let s = {
        let g = TimeGraph::with_size(2);
        #[cfg(bad)]
        let r = &g;
        #[cfg(not(bad))]
        let r = { let _ = &g; &kept };
        TimeScheduler::new(r)
    };
    s.schedule().len()
}
