use crate::graphs::*;
use crate::rt::mk_scheduler;
const N: &str = "a new scheduler constrains nothing";
const I: &str = "a restricted instant keeps the intersection of its set and of the window";
const J: &str = "another instant keeps the times of its set at an allowed duration from a kept time";
const E: &str = "a rejected restriction changes no set";
const U: &str = "a restriction is reported Unchanged exactly when the window holds the whole set";
const R: &str = "a restriction is rejected exactly when no time of the set is in the window";
const C: &str = "the sets of a scheduler are canonical";
const L: &str = "a deadline (start line) bounds every instant";
const D: &str = "a rejected deadline (start line) changes no set";
const S: &str = "a deadline (start line) only shrinks the sets";
fn fresh<const P: usize>() {
    let (g, _) = loose::<P>();
    let s = TimeScheduler::new(&g);
    check(s.schedule().len() == P, N);
    for i in 0..P { match s.scheduling(i as u32) { Some(w) => check(w.is_all(), N), None => check(false, N) } }
    let i: u32 = any(); assume(i >= P as u32);
    check(s.scheduling(i).is_none(), N);
    check(s.constraints().size() == P as u32, N);
}
pub fn c22_fresh_0() { fresh::<0>() }
pub fn c22_fresh_1() { fresh::<1>() }
pub fn c22_fresh_2() { fresh::<2>() }
pub fn c22_fresh_3() { fresh::<3>() }

/// an interval whose finite bounds are moderate
fn slot() -> (TimeSlot, i128, i128) {
    let s: TimeSlot = nonempty(); let (l, u) = bounds(&s);
    if l != -M { assume(l > -B); assume(l < B) }
    if u != M { assume(u > -B); assume(u < B) }
    (s, l, u)
}
/// the bounds of at most two intervals, (M, -M) for none
type Pair = [(i128, i128); 2];
const NONE: (i128, i128) = (M, -M);
fn slots(two: bool) -> (TimeSlots, Pair) {
    let (a, l, u) = slot();
    if !two { return (TimeSlots::from_iter([a]), [(l, u), NONE]) }
    let (b, m, v) = slot();
    assume(u + 2 <= m);
    (TimeSlots::from_iter([a, b]), [(l, u), (m, v)])
}
fn within(p: &Pair, y: i128) -> bool { (p[0].0 <= y && y <= p[0].1) || (p[1].0 <= y && y <= p[1].1) }
fn plus(a: i128, b: i128) -> i128 { if a == M || a == -M { a } else if b == M || b == -M { b } else { a + b } }
/// y is at a duration in [a, b] from a point of p in [l, u]
fn reach(p: &Pair, l: i128, u: i128, a: i128, b: i128, y: i128) -> bool {
    let mut w = false;
    for (x, z) in *p {
        let x = if x < l { l } else { x };
        let z = if z > u { u } else { z };
        if x <= z && plus(x, a) <= y && y <= plus(z, b) { w = true }
    }
    w
}
fn kept(s: &TimeScheduler<'_>, i: usize) -> bool {
    match s.scheduling(i as u32) { Some(w) => { check(is_canon(w), C); hits(w, 0) != 0 } None => { check(false, C); false } }
}
/// the restriction of instant i seen from instant j
fn retained<const P: usize>(i: usize, j: usize, two: (bool, bool), f: impl FnOnce(&mut TimeScheduler<'_>) -> (bool, bool), l: i128, u: i128) {
    let y = finite(); ghost(y, y); assume(y > -B); assume(y < B);
    let (g, m) = loose::<P>();
    for x in 0..P { for z in 0..x { if x != i && x != j || z != i && z != j { assume(m[x][z] != -M); assume(m[z][x] != -M) } assume(m[x][z] + m[z][x] <= 0) } }
    let mut sets = Vec::new();
    let mut pi = [NONE; 2]; let mut pj = [NONE; 2];
    for k in 0..P {
        if k == i { let (s, p) = slots(two.0); sets.push(s); pi = p; if i == j { pj = p } }
        else if k == j { let (s, p) = slots(two.1); sets.push(s); pj = p }
        else { sets.push(TimeSlots::all()) }
    }
    let mut s: TimeScheduler<'_> = mk_scheduler(&g, sets);
    let (err, unchanged) = f(&mut s);
    let was = within(&pj, y);
    let is = kept(&s, j);
    let met = (pi[0].0 <= u && l <= pi[0].1) || (pi[1].0 <= u && l <= pi[1].1);
    let inside = l <= pi[0].0 && (if pi[1].0 <= pi[1].1 { pi[1].1 } else { pi[0].1 }) <= u;
    check(err == !met, R);
    if err { check(is == was, E); return }
    check(unchanged == inside, U);
    if unchanged { check(is == was, S); return }
    if i == j { check(is == (was && l <= y && y <= u), I) }
    else { check(is == (was && reach(&pi, l, u, m[i][j], -m[j][i], y)), J) }
}
fn result<A, B>(r: Result<A, B>) -> (bool, bool) { match r { Ok(p) => (false, is_variant(&p, "Unchanged")), Err(e) => { check(is_variant(&e, "Recovered"), R); (true, false) } } }
fn by_window<const P: usize>(i: usize, j: usize, two: (bool, bool)) {
    let (w, l, u) = slot();
    retained::<P>(i, j, two, |s| result(s.retain(i as u32, w)), l, u)
}
pub fn c22_self_0() { by_window::<2>(0, 0, (true, false)) }
pub fn c22_self_1() { by_window::<2>(1, 1, (true, false)) }
pub fn c22_one_01() { by_window::<2>(0, 1, (false, false)) }
pub fn c22_one_10() { by_window::<2>(1, 0, (false, false)) }
pub fn c22_deep_many_one_01() { by_window::<2>(0, 1, (true, false)) }
pub fn c22_one_many_10() { by_window::<2>(1, 0, (false, true)) }
pub fn c22_three_02() { by_window::<3>(0, 2, (false, false)) }
pub fn c22_three_21() { by_window::<3>(2, 1, (false, false)) }
pub fn c22_three_10() { by_window::<3>(1, 0, (false, false)) }
/// a deadline (start line) seen from instant j
fn limited<const P: usize>(j: usize, start: bool) {
    let y = finite(); ghost(y, y); assume(y > -B); assume(y < B);
    let (g, m) = loose::<P>();
    for x in 0..P { for z in 0..x { assume(m[x][z] + m[z][x] <= 0) } }
    let mut sets = Vec::new();
    let mut pj = [NONE; 2];
    for k in 0..P { let (s, p) = slots(false); sets.push(s); if k == j { pj = p } }
    let d = finite(); assume(d > -B); assume(d < B);
    let t: Timestamp = mk(d);
    let mut s: TimeScheduler<'_> = mk_scheduler(&g, sets);
    let r = if start { s.set_startline(t) } else { s.set_deadline(t) };
    let (err, unchanged) = result(r);
    let was = within(&pj, y);
    let is = kept(&s, j);
    if err { check(is == was, D) }
    else {
        if is { check(was, S); check(if start { y >= d } else { y <= d }, L) }
        if unchanged { check(is == was, S) }
    }
}
pub fn c22_deadline_one() { limited::<1>(0, false) }
pub fn c22_deadline_two_0() { limited::<2>(0, false) }
pub fn c22_deadline_two_1() { limited::<2>(1, false) }
pub fn c22_startline_one() { limited::<1>(0, true) }
pub fn c22_startline_two_0() { limited::<2>(0, true) }
pub fn c22_startline_two_1() { limited::<2>(1, true) }
