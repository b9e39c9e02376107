use crate::graphs::*;
use std::cmp::Ordering;
const V: &str = "timespan and constraint report the same bounds";
const N: &str = "the duration from j to i is the negation of the one from i to j";
const S: &str = "an instant is at duration 0 from itself";
const X: &str = "an unknown instant is unconstrained";
const L: &str = "constraints are listed once, in order, with their bounds, and only them";
const O: &str = "instants are compared as their bounds tell";
fn free<const P: usize>(m: &Cells<P>, i: usize, j: usize) -> bool { m[i][j] == -M && m[j][i] == -M }
fn is<K: TimeConstraint>(k: &K, i: usize, j: usize, l: i128, u: i128, what: &'static str) {
    check(k.from() == i as u32 && k.to() == j as u32, what);
    check(ticks(&k.lower_bound()) == l && ticks(&k.upper_bound()) == u, what);
    check(k.is_low_bounded() == (l != -M) && k.is_up_bounded() == (u != M) && !k.is_empty(), what);
}
fn pairs<const P: usize>() {
    let (g, m) = loose::<P>();
    for i in 0..P { for j in 0..P {
        let s = g.timespan(i as u32, j as u32);
        check(bounds(&s).0 == m[i][j] && bounds(&s).1 == -m[j][i], N);
        if i == j { check(bounds(&s).0 == 0 && bounds(&s).1 == 0, S) }
        match g.constraint(i as u32, j as u32) {
            Some(k) => {
                check(!free(&m, i, j), V);
                is(&k, i, j, m[i][j], -m[j][i], V);
                let w: TimeSpan = k.into();
                let (l, u) = if m[i][j] <= -m[j][i] { (m[i][j], -m[j][i]) } else { (M, -M) };
                check(bounds(&w).0 == l && bounds(&w).1 == u, V);
            }
            None => check(free(&m, i, j), V),
        }
    } }
}
/// j is an instant of the graph, i is not
fn unknown<const P: usize>() {
    let (g, _) = loose::<P>();
    let i: u32 = any(); assume(i >= P as u32);
    let j: u32 = any();
    for s in [g.timespan(i, j), g.timespan(j, i)] { check(bounds(&s).0 == -M && bounds(&s).1 == M, X) }
    check(g.constraint(i, j).is_none() && g.constraint(j, i).is_none(), X);
    check(g.instant_cmp(i, j).is_none() && g.instant_cmp(j, i).is_none(), X);
    check(!g.are_distinct_instants(i, j) && !g.are_distinct_instants(j, i), X);
    check(g.constraints_from(i).next().is_none() && g.constraints_to(i).next().is_none(), X);
}
fn listed<const P: usize>() {
    let (g, m) = loose::<P>();
    let mut it = g.iter();
    for i in 0..P { for j in i + 1..P { if !free(&m, i, j) {
        match it.next() { Some(k) => is(&k, i, j, m[i][j], -m[j][i], L), None => check(false, L) }
    } } }
    check(it.next().is_none(), L);
    check(it.next().is_none(), L);
}
fn from<const P: usize>(i: usize) {
    let (g, m) = loose::<P>();
    let mut it = g.constraints_from(i as u32);
    for j in 0..P { if i != j && !free(&m, i, j) {
        match it.next() { Some(k) => is(&k, i, j, m[i][j], -m[j][i], L), None => check(false, L) }
    } }
    check(it.next().is_none(), L);
    check(it.next().is_none(), L);
}
fn to<const P: usize>(i: usize) {
    let (g, m) = loose::<P>();
    let mut it = g.constraints_to(i as u32);
    for j in 0..P { if i != j && !free(&m, i, j) {
        match it.next() { Some(k) => is(&k, j, i, m[j][i], -m[i][j], L), None => check(false, L) }
    } }
    check(it.next().is_none(), L);
    check(it.next().is_none(), L);
}
fn order<const P: usize>() {
    let (g, m) = graph::<P>();
    for i in 0..P { for j in 0..P {
        let o = g.instant_cmp(i as u32, j as u32);
        let d = g.are_distinct_instants(i as u32, j as u32);
        check(d == (m[i][j] > 0 || m[j][i] > 0), O);
        match o {
            Some(Ordering::Less) => check(m[i][j] > 0, O),
            Some(Ordering::Greater) => check(m[j][i] > 0, O),
            Some(Ordering::Equal) => check(m[i][j] == 0 && m[j][i] == 0, O),
            None => check(m[i][j] <= 0 && m[j][i] <= 0 && (m[i][j] != 0 || m[j][i] != 0), O),
        }
    } }
}
pub fn c16_pairs1() { pairs::<1>() }
pub fn c16_pairs2() { pairs::<2>() }
pub fn c16_pairs3() { pairs::<3>() }
pub fn c16_unknown0() { unknown::<0>() }
pub fn c16_unknown1() { unknown::<1>() }
pub fn c16_unknown3() { unknown::<3>() }
pub fn c16_listed0() { listed::<0>() }
pub fn c16_listed1() { listed::<1>() }
pub fn c16_listed2() { listed::<2>() }
pub fn c16_listed3() { listed::<3>() }
pub fn c16_listed4() { listed::<4>() }
pub fn c16_from10() { from::<1>(0) }
pub fn c16_from20() { from::<2>(0) }
pub fn c16_from21() { from::<2>(1) }
pub fn c16_from30() { from::<3>(0) }
pub fn c16_from31() { from::<3>(1) }
pub fn c16_from32() { from::<3>(2) }
pub fn c16_from40() { from::<4>(0) }
pub fn c16_from42() { from::<4>(2) }
pub fn c16_to10() { to::<1>(0) }
pub fn c16_to20() { to::<2>(0) }
pub fn c16_to21() { to::<2>(1) }
pub fn c16_to30() { to::<3>(0) }
pub fn c16_to31() { to::<3>(1) }
pub fn c16_to32() { to::<3>(2) }
pub fn c16_to42() { to::<4>(2) }
pub fn c16_order2() { order::<2>() }
pub fn c16_order3() { order::<3>() }
/// two constraints are the same one, possibly seen from the other instant
pub fn c16_equiv() {
    let p: (u32, u32) = (any(), any()); let q: (u32, u32) = (any(), any());
    assume(p.0 != p.1); assume(q.0 != q.1);
    let (d, a, b) = span(); let (e, x, y) = span();
    let r = (p, d).equiv(&(q, e));
    let same = p.0 == q.0 && p.1 == q.1 && a == x && b == y || p.0 == q.1 && p.1 == q.0 && a == -y && b == -x;
    check(r == same, "two constraints are equivalent exactly when they bound the same duration alike, in either orientation")
}
fn handed<const P: usize>(i: u32, j: u32) {
    let (g, m) = graph::<P>();
    let (i2, j2) = (i as usize, j as usize);
    match g.constraint(i, j) {
        Some(k) => {
            let ((a, b), s) = k.into();
            check(a == i && b == j && bounds(&s) == (m[i2][j2], -m[j2][i2]), "the constraint taken out of the graph is the one in it");
        }
        None => check(m[i2][j2] == -M && m[j2][i2] == -M, "only unconstrained pairs have no constraint")
    }
}
pub fn c16_handed_01() { handed::<2>(0, 1) }
pub fn c16_handed_10() { handed::<2>(1, 0) }
pub fn c16_handed_21() { handed::<3>(2, 1) }
