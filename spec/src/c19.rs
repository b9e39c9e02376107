use crate::graphs::*;
const L: &str = "no bound is loosened";
const K: &str = "the given bounds hold in the graph";
const T: &str = "every bound implied by two other bounds holds in the graph";
const D: &str = "every instant is at duration 0 from itself";
const S: &str = "durations that satisfy all the bounds satisfy the new ones";
const R: &str = "bounds that some durations satisfy are accepted";
const U: &str = "Unchanged is reported only if no bound was tightened";
const F: &str = "a fatal inconsistency leaves an empty graph";
const G: &str = "no bound from before a fatal inconsistency reappears when the graph grows again";
const V: &str = "a recovered inconsistency changes nothing";
const Z: &str = "the graph holds exactly its former instants and those of the constraints";
const E: &str = "an empty constraint is an inconsistency";
/// an iterator that does not tell its size
struct Blind<I>(I);
impl<I: Iterator> Iterator for Blind<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.0.next() } }
fn lost<const P: usize>(g: &mut TimeGraph) {
    check(g.size() == 0, F);
    g.resize(P as u32);
    let w = cells::<P>(g);
    for x in 0..P { for y in 0..P { check(w[x][y] == if x == y { 0 } else { -M }, G) } }
}
type K = ((u32, u32), TimeSpan);
fn outcome<const N: usize, const P: usize, const C: usize>(g: &mut TimeGraph, m: Cells<N>, given: [(usize, usize, i128, i128); C], failed: bool, kind: (bool, bool, bool)) {
    let (unchanged, recovered, fatal) = kind;
    if failed {
        if recovered {
            check(g.size() == N as u32, V);
            let w = cells::<N>(g);
            for x in 0..N { for y in 0..N { check(w[x][y] == m[x][y], V) } }
        } else {
            check(fatal, F);
            lost::<P>(g)
        }
        return
    }
    check(g.size() == P as u32, Z);
    let w = cells::<P>(g);
    let m: Cells<P> = widen(&m);
    for x in 0..P { check(w[x][x] == 0, D); for y in 0..P { check(m[x][y] <= w[x][y], L) } }
    for (i, j, a, b) in given { check(w[i][j] >= a, K); check(w[j][i] >= -b, K) }
    closed(&w, |c| check(c, T));
    if unchanged { check(same(&m, &w), U) }
}
fn kind<A, B>(r: &Result<A, B>) -> (bool, (bool, bool, bool)) {
    match r { Ok(p) => (false, (is_variant(p, "Unchanged"), false, false)), Err(e) => (true, (false, is_variant(e, "Recovered"), is_variant(e, "Fatal"))) }
}
fn two<const N: usize, const P: usize>(p: (u32, u32), q: (u32, u32), blind: bool) { let g = graph::<N>(); two_in::<N, P>(g, p, q, blind) }
fn two_in<const N: usize, const P: usize>(g: (TimeGraph, Cells<N>), p: (u32, u32), q: (u32, u32), blind: bool) {
    let (mut g, m) = g;
    let (d, a, b) = span(); let (e, x, y) = span();
    let r = if blind { g.extend(Blind([(p, d), (q, e)].into_iter())) } else { g.extend([(p, d), (q, e)]) };
    let (f, k) = kind(&r);
    outcome::<N, P, 2>(&mut g, m, [(p.0 as usize, p.1 as usize, a, b), (q.0 as usize, q.1 as usize, x, y)], f, k);
}
fn two_kept<const N: usize, const P: usize>(p: (u32, u32), q: (u32, u32)) { let g = graph::<N>(); two_kept_in::<N, P>(g, p, q) }
fn two_kept_in<const N: usize, const P: usize>(g: (TimeGraph, Cells<N>), p: (u32, u32), q: (u32, u32)) {
    let (mut g, m) = g;
    let (d, a, b) = span(); let (e, x, y) = span();
    let t: [i128; P] = solution(&widen(&m));
    meet(t[p.1 as usize] - t[p.0 as usize], a, b);
    meet(t[q.1 as usize] - t[q.0 as usize], x, y);
    let r = g.extend([(p, d), (q, e)]);
    check(r.is_ok(), R);
    let w = cells::<P>(&g);
    satisfies(&w, &t, |c| check(c, S));
}
fn one<const N: usize, const P: usize>(p: (u32, u32), blind: bool) {
    let (mut g, m) = graph::<N>();
    let (d, a, b) = span();
    let r = if blind { g.extend(Blind([(p, d)].into_iter())) } else { g.extend([(p, d)]) };
    let (f, k) = kind(&r);
    outcome::<N, P, 1>(&mut g, m, [(p.0 as usize, p.1 as usize, a, b)], f, k);
}
fn none<const N: usize>(blind: bool) {
    let (mut g, m) = graph::<N>();
    let v: [K; 0] = [];
    let r = if blind { g.extend(Blind(v.into_iter())) } else { g.extend(v) };
    check(r.is_ok(), R);
    check(g.size() == N as u32, Z);
    check(same(&m, &cells::<N>(&g)), S);
}
/// a list with an empty constraint
fn vacuous<const P: usize>(first: bool) {
    let (mut g, _) = graph::<2>();
    let (d, _, _) = span();
    let (p, q) = ((0, 1), (1, 0));
    let r = if first { g.extend([(p, TimeSpan::empty()), (q, d)]) } else { g.extend([(p, d), (q, TimeSpan::empty())]) };
    let (f, (_, _, fatal)) = kind(&r);
    check(f && fatal, E);
    lost::<P>(&mut g)
}
fn merged<const N: usize, const Q: usize, const P: usize>() {
    let (mut g, m) = graph::<N>();
    let (h, n) = graph::<Q>();
    let r = g.merge(h);
    let (f, (unchanged, recovered, fatal)) = kind(&r);
    if f {
        check(!recovered && fatal, F);
        return lost::<P>(&mut g);
    }
    check(g.size() == P as u32, Z);
    let w = cells::<P>(&g);
    let (m, n): (Cells<P>, Cells<P>) = (widen(&m), widen(&n));
    for x in 0..P { check(w[x][x] == 0, D); for y in 0..P { check(m[x][y] <= w[x][y] && n[x][y] <= w[x][y], L) } }
    closed(&w, |c| check(c, T));
    if unchanged { check(same(&m, &w), U) }
}
fn merged_kept<const N: usize, const Q: usize, const P: usize>() {
    let (mut g, m) = graph::<N>();
    let (h, n) = graph::<Q>();
    let t: [i128; P] = solution(&widen(&m));
    satisfies(&widen::<Q, P>(&n), &t, |c| assume(c));
    let r = g.merge(h);
    check(r.is_ok(), R);
    let w = cells::<P>(&g);
    satisfies(&w, &t, |c| check(c, S));
}
pub fn c19_none() { none::<2>(false) }
pub fn c19_none_blind() { none::<2>(true) }
pub fn c19_one_01() { one::<2, 2>((0, 1), false) }
pub fn c19_one_blind_01() { one::<2, 2>((0, 1), true) }
pub fn c19_one_blind_11() { one::<2, 2>((1, 1), true) }
pub fn c19_one_blind_21() { one::<2, 3>((2, 1), true) }
pub fn c19_one_blind_three() { one::<3, 3>((0, 2), true) }
pub fn c19_two_01_10() { two::<2, 2>((0, 1), (1, 0), false) }
pub fn c19_two_01_11() { two::<2, 2>((0, 1), (1, 1), false) }
pub fn c19_two_01_12() { two::<2, 3>((0, 1), (1, 2), false) }
pub fn c19_two_new() { two::<0, 3>((0, 2), (1, 2), true) }
pub fn c19_deep_two_three() { two::<3, 3>((0, 1), (1, 2), false) }
pub fn c19_two_paired_01() { two_in::<3, 3>(paired(0, 1), (0, 1), (1, 2), false) }
pub fn c19_two_paired_02() { two_in::<3, 3>(paired(0, 2), (0, 1), (1, 2), false) }
pub fn c19_two_paired_12() { two_in::<3, 3>(paired(1, 2), (0, 2), (0, 1), false) }
pub fn c19_two_blind() { two::<1, 3>((2, 1), (0, 2), true) }
pub fn c19_kept_01_10() { two_kept::<2, 2>((0, 1), (1, 0)) }
pub fn c19_kept_01_12() { two_kept::<2, 3>((0, 1), (1, 2)) }
pub fn c19_deep_kept_three() { two_kept::<3, 3>((0, 1), (1, 2)) }
pub fn c19_kept_paired_01() { two_kept_in::<3, 3>(paired(0, 1), (0, 1), (1, 2)) }
pub fn c19_kept_paired_02() { two_kept_in::<3, 3>(paired(0, 2), (0, 1), (1, 2)) }
pub fn c19_kept_paired_12() { two_kept_in::<3, 3>(paired(1, 2), (0, 2), (0, 1)) }
pub fn c19_vacuous_first() { vacuous::<2>(true) }
pub fn c19_vacuous_last() { vacuous::<2>(false) }
pub fn c19_merged_22() { merged::<2, 2, 2>() }
pub fn c19_merged_23() { merged::<2, 3, 3>() }
pub fn c19_merged_32() { merged::<3, 2, 3>() }
pub fn c19_merged_03() { merged::<0, 3, 3>() }
pub fn c19_merged_30() { merged::<3, 0, 3>() }
pub fn c19_merged_13() { merged::<1, 3, 3>() }
pub fn c19_merged_kept_22() { merged_kept::<2, 2, 2>() }
pub fn c19_merged_kept_23() { merged_kept::<2, 3, 3>() }
pub fn c19_merged_kept_32() { merged_kept::<3, 2, 3>() }
pub fn c19_self_only() { two::<1, 1>((0, 0), (0, 0), false) }
pub fn c19_self_new() { two::<0, 1>((0, 0), (0, 0), false) }
pub fn c19_self_one() { one::<1, 1>((0, 0), true) }
pub fn c19_merged_11() { merged::<1, 1, 1>() }
/// lists gathered by the standard traits, which accept consistent lists only
fn gathered<const N: usize, const P: usize>(p: (u32, u32), q: (u32, u32)) {
    let (mut g, m) = graph::<N>();
    let (d, a, b) = span(); let (e, x, y) = span();
    allow_panic(true);
    if N == 0 { g = TimeGraph::from_iter([(p, d), (q, e)]) } else { Extend::extend(&mut g, [(p, d), (q, e)]) }
    outcome::<N, P, 2>(&mut g, m, [(p.0 as usize, p.1 as usize, a, b), (q.0 as usize, q.1 as usize, x, y)], false, (false, false, false));
}
fn gathered_kept<const N: usize, const P: usize>(p: (u32, u32), q: (u32, u32)) {
    let (mut g, m) = graph::<N>();
    let (d, a, b) = span(); let (e, x, y) = span();
    let t: [i128; P] = solution(&widen(&m));
    meet(t[p.1 as usize] - t[p.0 as usize], a, b);
    meet(t[q.1 as usize] - t[q.0 as usize], x, y);
    if N == 0 { g = TimeGraph::from_iter([(p, d), (q, e)]) } else { Extend::extend(&mut g, [(p, d), (q, e)]) }
    let w = cells::<P>(&g);
    satisfies(&w, &t, |c| check(c, S));
}
pub fn c19_collected() { gathered::<0, 3>((0, 2), (2, 1)) }
pub fn c19_collected_kept() { gathered_kept::<0, 3>((0, 2), (2, 1)) }
pub fn c19_extended() { gathered::<2, 2>((0, 1), (1, 0)) }
pub fn c19_extended_kept() { gathered_kept::<2, 2>((1, 0), (1, 0)) }
