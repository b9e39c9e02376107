use crate::graphs::*;
const Z: &str = "the size of the graph";
const B: &str = "the bounds between the remaining instants are kept, new instants are unconstrained";
const D: &str = "every instant is at duration 0 from itself";
const F: &str = "an instant removed by shrink_to_fit is not constrained, the last one kept is";
const X: &str = "the reset graph has no constraint";
fn holds<const P: usize>(g: &TimeGraph, m: &Cells<P>, what: &'static str) {
    check(g.size() == P as u32, Z);
    let w = cells::<P>(g);
    for x in 0..P { check(w[x][x] == 0, D); for y in 0..P { check(w[x][y] == m[x][y], what) } }
}
fn resized<const N: usize, const P: usize>() {
    let (mut g, m) = loose::<N>();
    g.resize(P as u32);
    holds(&g, &widen::<N, P>(&m), B);
}
/// down and up again
fn twice<const N: usize, const P: usize>() {
    let (mut g, m) = loose::<N>();
    g.resize(P as u32);
    g.resize(N as u32);
    holds(&g, &widen::<P, N>(&widen::<N, P>(&m)), B);
}
fn created<const P: usize>() {
    unroll();
    let g = TimeGraph::with_size(P as u32);
    holds(&g, &widen::<0, P>(&[]), B);
}
fn reset<const N: usize, const P: usize>() {
    let (mut g, _) = loose::<N>();
    g.reset();
    holds(&g, &widen::<0, N>(&[]), X);
    g.resize(P as u32);
    holds(&g, &widen::<0, P>(&[]), X);
}
fn mentioned<const N: usize>(m: &Cells<N>, i: usize) -> bool {
    let mut f = false;
    for j in 0..N { if i != j && (m[i][j] != -M || m[j][i] != -M) { f = true } }
    f
}
/// (an instant is removed once the ones after it are, so that only former instants matter)
fn fitted<const N: usize>() {
    let (mut g, m) = loose::<N>();
    let mut kept = N;
    while kept > 0 && !mentioned(&m, kept - 1) { kept -= 1 }
    g.shrink_to_fit();
    check(g.size() == kept as u32, F);
    for x in 0..kept { for y in 0..kept { check(bounds(&g.timespan(x as u32, y as u32)).0 == m[x][y], B) } }
    g.resize(N as u32);
    holds(&g, &m, B);
}
/// the bounds are unchanged whatever the reserved capacity
fn capacity<const N: usize>(c: u32) {
    let (mut g, m) = loose::<N>();
    g.shrink_to(c);
    holds(&g, &m, B);
}
/// a fitted graph still propagates, merges, resets and grows
fn after<const N: usize>() {
    let (mut g, m) = loose::<N>();
    assume(!mentioned(&m, N - 1));
    assume(N < 3 || mentioned(&m, 0));
    g.shrink_to_fit();
    let n = g.size();
    g.resize(n + 2);
    for x in 0..N { for y in 0..N { check(bounds(&g.timespan(x as u32, y as u32)).0 == m[x][y], B) } }
    for x in 0..n + 2 { for y in n..n + 2 { let s = g.timespan(x, y); if x == y { check(bounds(&s).0 == 0 && bounds(&s).1 == 0, D) } else { check(bounds(&s).0 == -M && bounds(&s).1 == M, B) } } }
    g.reset();
    g.resize(n + 3);
    for x in 0..n + 3 { for y in 0..n + 3 { let s = g.timespan(x, y); if x == y { check(bounds(&s).0 == 0 && bounds(&s).1 == 0, D) } else { check(bounds(&s).0 == -M && bounds(&s).1 == M, X) } } }
}
pub fn c21_grow_00() { resized::<0, 0>() }
pub fn c21_grow_01() { resized::<0, 1>() }
pub fn c21_grow_03() { resized::<0, 3>() }
pub fn c21_grow_23() { resized::<2, 3>() }
pub fn c21_grow_24() { resized::<2, 4>() }
pub fn c21_grow_35() { resized::<3, 5>() }
pub fn c21_same_33() { resized::<3, 3>() }
pub fn c21_less_32() { resized::<3, 2>() }
pub fn c21_less_31() { resized::<3, 1>() }
pub fn c21_less_30() { resized::<3, 0>() }
pub fn c21_less_42() { resized::<4, 2>() }
pub fn c21_twice_32() { twice::<3, 2>() }
pub fn c21_twice_31() { twice::<3, 1>() }
pub fn c21_twice_24() { twice::<2, 4>() }
pub fn c21_created_0() { created::<0>() }
pub fn c21_created_1() { created::<1>() }
pub fn c21_created_4() { created::<4>() }
pub fn c21_reset_0() { reset::<0, 2>() }
pub fn c21_reset_33() { reset::<3, 3>() }
pub fn c21_reset_35() { reset::<3, 5>() }
pub fn c21_reset_32() { reset::<3, 2>() }
pub fn c21_fitted_0() { fitted::<0>() }
pub fn c21_fitted_1() { fitted::<1>() }
pub fn c21_fitted_2() { fitted::<2>() }
pub fn c21_fitted_3() { fitted::<3>() }
pub fn c21_capacity_0() { capacity::<3>(0) }
pub fn c21_capacity_3() { capacity::<3>(3) }
pub fn c21_capacity_9() { capacity::<3>(9) }
pub fn c21_after_2() { after::<2>() }
pub fn c21_after_3() { after::<3>() }
