use crate::util::*;
const B: &str = "the predicate describes the bounds of the window";
const I: &str = "the interval iteration yields the canonical intervals of the window";
/// the predicates of a convex window with the given bounds
fn convex<W: TimeWindow>(w: &W, l: i128, u: i128) where W::TimePoint: 'static {
    let empty = l > u || l >= M || u <= -M;
    check(w.is_empty() == empty, B);
    check(w.is_convex(), B);
    check(w.convex_count() == if empty { 0 } else { 1 }, B);
    check(w.is_low_bounded() == (!empty && l > -M), B);
    check(w.is_up_bounded() == (!empty && u < M), B);
    check(w.is_bounded() == (!empty && l > -M && u < M), B);
    check(w.is_singleton() == (!empty && l == u), B);
    check(w.is_all() == (l == -M && u == M), B);
    let (a, b) = (ticks(&w.lower_bound()), ticks(&w.upper_bound()));
    if empty { check(a > b, B) } else { check(a == l && b == u, B) }
    let e = bounds(&w.convex_envelope());
    check(if empty { e == (M, -M) } else { e == (l, u) }, B);
    let mut it = w.iter();
    match it.next() { None => check(empty, I), Some(i) => { check(!empty && bounds(&i) == (l, u), I); check(it.next().is_none(), I) } }
}
pub fn c25_interval<T: Tp>() { let i: TimeInterval<T> = any(); let (l, u) = bounds(&i); convex(&i, l, u) }
pub fn c25_empty<T: Tp>() { convex(&TimeInterval::<T>::empty(), M, -M) }
pub fn c25_point<T: Tp>() { let x = finite(); convex(&mk::<T>(x), x, x) }
pub fn c25_range<T: Tp>() { let (p, q): (T, T) = (any(), any()); let (a, b) = (ticks(&p), ticks(&q)); assume(b > -M + 1); assume(b < M); convex(&(p..q), a, b - 1) }
pub fn c25_range_inclusive<T: Tp>() { let (p, q): (T, T) = (any(), any()); let (a, b) = (ticks(&p), ticks(&q)); assume(a < M); assume(b > -M); convex(&(p..=q), a, b) }
pub fn c25_range_from<T: Tp>() { let p: T = any(); assume(ticks(&p) < M); convex(&(p..), ticks(&p), M) }
pub fn c25_range_to<T: Tp>() { let q: T = any(); let b = ticks(&q); assume(b > -M + 1); assume(b < M); convex(&(..q), -M, b - 1) }
pub fn c25_range_to_inclusive<T: Tp>() { let q: T = any(); assume(ticks(&q) > -M); convex(&(..=q), -M, ticks(&q)) }
/// the predicates of any set: compared with what a tracked window says
pub fn c25_set<T: Tp>() {
    let x = point(); let s: TimeSet<T> = any();
    let n = raw_len(&s);
    check(s.is_empty() == (n == 0), B); check(s.convex_count() as i128 == n, B); check(s.is_convex() == (n <= 1), B);
    let (l, u) = (ticks(&s.lower_bound()), ticks(&s.upper_bound()));
    if hits(&s, 0) != 0 { check(l <= x && x <= u, B); check(n != 0, B) }
    if n == 0 { check(l > u, B); check(!s.is_low_bounded() && !s.is_up_bounded() && !s.is_bounded() && !s.is_singleton() && !s.is_all(), B) }
    else {
        check(l <= u, B);
        check(s.is_low_bounded() == (l > -M), B); check(s.is_up_bounded() == (u < M), B); check(s.is_bounded() == (l > -M && u < M), B);
        if s.is_singleton() { check(l == u && n == 1, B) } else { check(!(n == 1 && l == u), B) }
        check(s.is_all() == (n == 1 && l == -M && u == M), B);
    }
    let e = bounds(&s.convex_envelope());
    check(if n == 0 { e == (M, -M) } else { e == (l, u) }, B);
}
/// the bounds of a set are points of the set
pub fn c25_set_lower<T: Tp>() { let x = point(); let s: TimeSet<T> = any(); if ticks(&s.lower_bound()) == x { check(hits(&s, 0) != 0, B) } if ticks(&s.upper_bound()) == x { check(hits(&s, 0) != 0, B) } }
pub fn c25_set_iter<T: Tp>() { point(); let s: TimeSet<T> = any(); let v: Vec<TimeInterval<T>> = s.iter().collect(); check(is_canon(&v), I); check((hits(&v, 0) != 0) == (hits(&s, 0) != 0), I) }
pub fn c25_set_iter_ref<T: Tp>() { point(); let s: TimeSet<T> = any(); let v: Vec<TimeInterval<T>> = (&s).into_iter().collect(); check(is_canon(&v), I); check(raw_len(&v) == raw_len(&s), I); check((hits(&v, 0) != 0) == (hits(&s, 0) != 0), I) }
pub fn c25_interval_into_iter<T: Tp>() { let i: TimeInterval<T> = any(); let mut it = i.into_iter(); match it.next() { None => check(vacant(&i), I), Some(j) => { check(!vacant(&i) && bounds(&i) == bounds(&j), I); check(it.next().is_none(), I) } } }
pub fn c25_constraint_value() { let (i, j): (u32, u32) = (any(), any()); let s: TimeSpan = any(); let (l, u) = bounds(&s); convex(&((i, j), s), l, u) }
crate::roots!(c25_interval, c25_empty, c25_point, c25_range, c25_range_inclusive, c25_range_from, c25_range_to, c25_range_to_inclusive, c25_set, c25_set_lower, c25_set_iter, c25_set_iter_ref, c25_interval_into_iter);
