use crate::util::*;
use crate::graphs::*;
const L: &str = "the lower size hint is not above the number of items still to come";
const U: &str = "the upper size hint is not below the number of items still to come";
const N: &str = "an exhausted iterator stays exhausted";
/// The hints read at any moment of the iteration are held against the items that come after it.
fn stepped<X, I: Iterator<Item = X>>(mut it: I) {
    let (mut owed, mut room, mut told) = (0, 0, false);
    loop {
        let now: bool = any();
        if now {
            let (l, u) = it.size_hint();
            owed = l as i128;
            if let Some(u) = u { room = u as i128; told = true } else { told = false }
        }
        if it.next().is_none() { break }
        if told { check(room > 0, U); room -= 1 }
        if owed > 0 { owed -= 1 }
    }
    check(owed == 0, L);
    spent(it)
}
fn spent<X, I: Iterator<Item = X>>(mut it: I) {
    loop {
        check(it.size_hint().0 == 0, L);
        let more: bool = any();
        if !more { break }
        check(it.next().is_none(), N)
    }
}
fn set<T: Tp>() -> TimeSet<T> { any() }
pub fn c24_union<T: Tp>() { stepped(set::<T>().into_iter().union(set::<T>().into_iter())) }
pub fn c24_union_interval<T: Tp>() { let i: TimeInterval<T> = any(); stepped(set::<T>().into_iter().union(i)) }
pub fn c24_union_intervals<T: Tp>() { let i: TimeInterval<T> = any(); let j: TimeInterval<T> = any(); stepped(i.into_iter().union(j)) }
pub fn c24_intersection<T: Tp>() { stepped(set::<T>().into_iter().intersection(set::<T>().into_iter())) }
pub fn c24_intersection_interval<T: Tp>() { let i: TimeInterval<T> = any(); stepped(set::<T>().into_iter().intersection(i)) }
pub fn c24_intersection_intervals<T: Tp>() { let i: TimeInterval<T> = any(); let j: TimeInterval<T> = any(); stepped(i.into_iter().intersection(j)) }
pub fn c24_complement<T: Tp>() { stepped(set::<T>().into_iter().complementary()) }
pub fn c24_complement_interval<T: Tp>() { let i: TimeInterval<T> = any(); stepped(i.into_iter().complementary()) }
pub fn c24_exclusion<T: Tp>() { stepped(set::<T>().into_iter().exclusion(set::<T>().into_iter())) }
pub fn c24_translation<T: Tp>() { let t: TimeValue = any(); allow_panic(true); stepped(set::<T>().into_iter().translation(t)) }
pub fn c24_set<T: Tp>() { stepped(set::<T>().into_iter()) }
pub fn c24_set_ref<T: Tp>() { let s = set::<T>(); stepped((&s).into_iter()) }
pub fn c24_set_iter<T: Tp>() { let s = set::<T>(); stepped(s.iter()) }
pub fn c24_interval<T: Tp>() { let i: TimeInterval<T> = any(); stepped(i.into_iter()) }
crate::roots!(c24_union, c24_union_interval, c24_union_intervals, c24_intersection, c24_intersection_interval, c24_intersection_intervals,
    c24_complement, c24_complement_interval, c24_exclusion, c24_translation, c24_set, c24_set_ref, c24_set_iter, c24_interval);
fn turns<X, I: Iterator<Item = X>>(mut it: I) {
    let mut hints = [(0usize, None); 8];
    let mut n = 0;
    hints[0] = it.size_hint();
    while it.next().is_some() { n += 1; check(n < 8, U); hints[n] = it.size_hint(); }
    for k in 0..n + 1 {
        check(hints[k].0 <= n - k, L);
        if let Some(u) = hints[k].1 { check(u >= n - k, U) }
    }
    for _ in 0..3 { check(it.size_hint().0 == 0, L); check(it.next().is_none(), N) }
}
pub fn c24_graph_iter_0() { let g: TimeGraph = any_graph(0, 0); turns(g.iter()) }
pub fn c24_graph_iter_1() { let g: TimeGraph = any_graph(1, 1); turns(g.iter()) }
pub fn c24_graph_iter_2() { let g: TimeGraph = any_graph(2, 4); turns(g.iter()) }
pub fn c24_graph_iter_3() { let g: TimeGraph = any_graph(3, 9); turns(g.iter()) }
pub fn c24_graph_iter_4() { let g: TimeGraph = any_graph(4, 16); turns(g.iter()) }
fn from<const P: usize>() { let g: TimeGraph = any_graph(P as u32, (P * P) as u32); let i: u32 = any(); turns(g.constraints_from(i)) }
fn to<const P: usize>() { let g: TimeGraph = any_graph(P as u32, (P * P) as u32); let i: u32 = any(); turns(g.constraints_to(i)) }
pub fn c24_graph_from_0() { let g: TimeGraph = any_graph(0, 0); let i: u32 = any(); turns(g.constraints_from(i)) }
pub fn c24_graph_from_1() { from::<1>() }
pub fn c24_graph_from_2() { from::<2>() }
pub fn c24_graph_from_3() { from::<3>() }
pub fn c24_graph_from_4() { from::<4>() }
pub fn c24_graph_to_1() { to::<1>() }
pub fn c24_graph_to_2() { to::<2>() }
pub fn c24_graph_to_3() { to::<3>() }
pub fn c24_graph_to_4() { to::<4>() }
