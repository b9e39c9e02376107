// a constraint does not outlive its graph
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f() -> bool {
    let kept = TimeGraph::with_size(2);
    let k = {
        let g = TimeGraph::with_size(2);
        #[cfg(bad)]
        let r = &g;
        #[cfg(not(bad))]
        let r = { let _ = &g; &kept };
        let k = r.iter().next(); k
    };
    k.is_some()
}
