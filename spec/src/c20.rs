use crate::graphs::*;
use crate::rt::any_graph_any_size;
const O: &str = "an instant outside the graph is unconstrained";
fn wild() -> TimeGraph { any_graph_any_size() }
pub fn c20_timespan() { let g = wild(); let (i, j) = (any::<u32>(), any::<u32>()); let s = g.timespan(i, j); if i >= g.size() || j >= g.size() { check(s.is_all(), O) } }
pub fn c20_constraint() { let g = wild(); let (i, j) = (any::<u32>(), any::<u32>()); match g.constraint(i, j) { Some(k) => { let _ = (k.lower_bound(), k.upper_bound()); check(i < g.size() && j < g.size(), O) } None => {} } }
pub fn c20_order() { let g = wild(); let (i, j) = (any::<u32>(), any::<u32>()); let c = g.instant_cmp(i, j); if i >= g.size() || j >= g.size() { check(c.is_none(), O) } }
pub fn c20_distinct() { let g = wild(); let (i, j) = (any::<u32>(), any::<u32>()); let c = g.are_distinct_instants(i, j); if i >= g.size() || j >= g.size() { check(!c, O) } }
pub fn c20_from() { let g = wild(); let i = any::<u32>(); for k in g.constraints_from(i) { let _ = k.lower_bound(); check(k.to() < g.size(), O) } }
pub fn c20_to() { let g = wild(); let i = any::<u32>(); for k in g.constraints_to(i) { let _ = k.lower_bound(); check(k.from() < g.size(), O) } }
pub fn c20_iter() { let g = wild(); for k in g.iter() { let _ = k.upper_bound(); check(k.from() < g.size() && k.to() < g.size(), O) } }
pub fn c20_reset() { let mut g = wild(); g.reset() }
pub fn c20_resize() { let mut g = wild(); let n = any::<u32>(); g.resize(n); check(g.size() == n, O) }
pub fn c20_with_size() { let n = any::<u32>(); let g = TimeGraph::with_size(n); check(g.size() == n, O) }
fn any_k() -> ((u32, u32), TimeSpan) { ((any::<u32>(), any::<u32>()), any::<TimeSpan>()) }
pub fn c20_propagate() { let mut g = wild(); let k = any_k(); allow_panic(true); let _ = g.propagate(k); }
pub fn c20_extend() { let mut g = wild(); let k = [any_k(), any_k()]; allow_panic(true); let _ = g.extend(k); }
pub fn c20_merge() { let mut g = wild(); let h = wild(); allow_panic(true); let _ = g.merge(h); }
pub fn c20_extend_any() { let mut g = wild(); allow_panic(true); let _ = g.extend(std::iter::from_fn(|| { let more: bool = any(); if more { Some(any_k()) } else { None } })); }
fn scheduled<const P: usize>() -> TimeGraph { crate::rt::any_graph(P as u32, (P * P) as u32) }
/// an instant outside the scheduler panics with an index message and nothing else does
fn retain<const P: usize>() {
    let g = scheduled::<P>(); let mut s = TimeScheduler::new(&g);
    let (i, w) = (any::<u32>(), any::<TimeSlot>());
    allow_panic(true);
    let _ = s.retain(i, w);
    check(i < P as u32, "an instant outside the scheduler is refused")
}
pub fn c20_retain_1() { retain::<1>() }
pub fn c20_retain_2() { retain::<2>() }
pub fn c20_retain_3() { retain::<3>() }
pub fn c20_retain_any() { let g = wild(); let mut s = TimeScheduler::new(&g); let (i, w) = (any::<u32>(), any::<TimeSlot>()); allow_panic(true); let _ = s.retain(i, w); }
pub fn c20_set_singleton<T: Tp>() { let s: TimeSet<T> = any(); let _ = s.is_singleton(); }
pub fn c20_set_before<T: Tp>() { let mut s: TimeSet<T> = any(); let _ = s.truncate_before(any::<T>()); }
pub fn c20_set_after<T: Tp>() { let mut s: TimeSet<T> = any(); let _ = s.truncate_after(any::<T>()); }
crate::roots!(c20_set_singleton, c20_set_before, c20_set_after);
pub fn c20_set_scaled() { let s: TimeSet<TimeValue> = any(); let n: i64 = any(); allow_panic(true); let _ = s * n; }
