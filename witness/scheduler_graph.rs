// a scheduler only reads its graph
use chronologic::*; use chronologic::graph::*; use chronologic::iter::*;
pub fn f(s: &mut TimeScheduler<'_>) {
    #[cfg(bad)] { s.constraints().reset(); }
    #[cfg(not(bad))]
    let _ = s.constraints().size();
}
