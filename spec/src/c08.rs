use crate::util::*;
fn set<T: Tp>() -> TimeSet<T> { any() }
fn iv<T: Tp>() -> TimeInterval<T> { nonempty() }
fn sub<T: Tp>(a: &TimeInterval<T>, b: &TimeInterval<T>) -> bool { let ((l, u), (p, q)) = (bounds(a), bounds(b)); l <= p && q <= u }
fn meet<T: Tp>(a: &TimeInterval<T>, b: &TimeInterval<T>) -> bool { let ((l, u), (p, q)) = (bounds(a), bounds(b)); l <= q && p <= u }
const C: &str = "contains answers whether every point of the other window is in this one";
const O: &str = "overlaps answers whether the windows have a common point";
pub fn c08_interval_point<T: Tp>() { let x = finite(); let a: TimeInterval<T> = any(); check(a.contains(&mk::<T>(x)) == inside(&a, x), C) }
pub fn c08_interval_interval<T: Tp>() { let (a, b) = (iv::<T>(), iv::<T>()); check(a.contains(&b) == sub(&a, &b), C) }
pub fn c08_interval_set<T: Tp>() {
    let a: TimeInterval<T> = any(); let x = finite(); ghost(x, x); let s = set::<T>();
    let r = a.contains(&s);
    if r && hits(&s, 0) != 0 { check(inside(&a, x), C) }
}
pub fn c08_interval_set_two<T: Tp>() {
    let (a, i, j) = (iv::<T>(), iv::<T>(), iv::<T>());
    let ((_, u), (p, _)) = (bounds(&i), bounds(&j)); assume(u + 1 < p);
    let s: TimeSet<T> = [i, j].into_iter().collect();
    check(a.contains(&s) == (sub(&a, &i) && sub(&a, &j)), C)
}
pub fn c08_interval_range<T: Tp>() { let a = iv::<T>(); let (p, q) = (finite(), finite()); assume(p < q); check(a.contains(&(mk::<T>(p)..mk::<T>(q))) == { let (l, u) = bounds(&a); l <= p && q - 1 <= u }, C) }
pub fn c08_range_point<T: Tp>() { let x = finite(); let (p, q): (T, T) = (any(), any()); let t = mk::<T>(x); let (a, b) = (ticks(&p), ticks(&q)); assume(a < M); assume(b > -M + 1); assume(b < M);
    check(TimeContaining::contains(&(p..q), &t) == (a <= x && x < b), C); check(TimeContaining::contains(&(p..=q), &t) == (a <= x && x <= b), C);
    check(TimeContaining::contains(&(p..), &t) == (a <= x), C); check(TimeContaining::contains(&(..q), &t) == (x < b), C); check(TimeContaining::contains(&(..=q), &t) == (x <= b), C) }
pub fn c08_point_point<T: Tp>() { let (x, y) = (finite(), finite()); check(TimeContaining::contains(&mk::<T>(x), &mk::<T>(y)) == (x == y), C) }
pub fn c08_set_point<T: Tp>() { let x = point(); let s = set::<T>(); check(s.contains(&mk::<T>(x)) == (hits(&s, 0) != 0), C) }
pub fn c08_set_interval<T: Tp>() { let b = iv::<T>(); let (l, u) = bounds(&b); ghost(l, u); let s = set::<T>(); check(s.contains(&b) == (hits(&s, 0) == 2), C) }
pub fn c08_set_range<T: Tp>() { let (p, q) = (finite(), finite()); assume(p < q); ghost(p, q - 1); let s = set::<T>(); check(s.contains(&(mk::<T>(p)..mk::<T>(q))) == (hits(&s, 0) == 2), C) }
pub fn c08_set_set<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let r = a.contains(&b); if r && hits(&b, 0) != 0 { check(hits(&a, 0) != 0, C) } }
pub fn c08_set_set_two<T: Tp>() {
    let (i, j) = (iv::<T>(), iv::<T>()); let ((l, u), (p, q)) = (bounds(&i), bounds(&j)); assume(u + 1 < p);
    ghost(l, u); ghost(p, q); let a = set::<T>();
    let b: TimeSet<T> = [i, j].into_iter().collect();
    check(a.contains(&b) == (hits(&a, 0) == 2 && hits(&a, 1) == 2), C)
}
pub fn c08_set_empty<T: Tp>() { let a = set::<T>(); check(a.contains(&TimeSet::<T>::empty()), C) }
pub fn c08_overlap_intervals<T: Tp>() { let (a, b) = (iv::<T>(), iv::<T>()); check(a.overlaps(&b) == meet(&a, &b), O); check(b.overlaps(&a) == meet(&a, &b), O) }
pub fn c08_overlap_interval_point<T: Tp>() { let a = iv::<T>(); let x = finite(); let t = mk::<T>(x); check(a.overlaps(&t) == inside(&a, x), O); check(t.overlaps(&a) == inside(&a, x), O) }
pub fn c08_overlap_interval_range<T: Tp>() { let a = iv::<T>(); let (p, q) = (finite(), finite()); assume(p < q); let r = mk::<T>(p)..mk::<T>(q); let (l, u) = bounds(&a); let w = l < q && p <= u; check(a.overlaps(&r) == w, O); check(r.overlaps(&a) == w, O) }
pub fn c08_overlap_set_interval<T: Tp>() { let b = iv::<T>(); let (l, u) = bounds(&b); ghost(l, u); let s = set::<T>(); check(s.overlaps(&b) == (hits(&s, 0) != 0), O) }
pub fn c08_overlap_interval_set<T: Tp>() { let b = iv::<T>(); let (l, u) = bounds(&b); ghost(l, u); let s = set::<T>(); check(b.overlaps(&s) == (hits(&s, 0) != 0), O) }
pub fn c08_overlap_set_point<T: Tp>() { let x = point(); let s = set::<T>(); let t = mk::<T>(x); check(s.overlaps(&t) == (hits(&s, 0) != 0), O); check(t.overlaps(&s) == (hits(&s, 0) != 0), O) }
pub fn c08_overlap_set_range<T: Tp>() { let (p, q) = (finite(), finite()); assume(p < q); ghost(p, q - 1); let s = set::<T>(); let r = mk::<T>(p)..mk::<T>(q); check(s.overlaps(&r) == (hits(&s, 0) != 0), O) }
pub fn c08_overlap_sets<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let r = a.overlaps(&b); if hits(&a, 0) != 0 && hits(&b, 0) != 0 { check(r, O) } }
pub fn c08_overlap_sets_two<T: Tp>() {
    let (i, j) = (iv::<T>(), iv::<T>()); let ((l, u), (p, q)) = (bounds(&i), bounds(&j)); assume(u + 1 < p);
    ghost(l, u); ghost(p, q); let a = set::<T>();
    let b: TimeSet<T> = [i, j].into_iter().collect();
    check(a.overlaps(&b) == (hits(&a, 0) != 0 || hits(&a, 1) != 0), O)
}
pub fn c08_overlap_two_sets<T: Tp>() {
    let (i, j) = (iv::<T>(), iv::<T>()); let ((l, u), (p, q)) = (bounds(&i), bounds(&j)); assume(u + 1 < p);
    ghost(l, u); ghost(p, q); let a = set::<T>();
    let b: TimeSet<T> = [i, j].into_iter().collect();
    check(b.overlaps(&a) == (hits(&a, 0) != 0 || hits(&a, 1) != 0), O)
}
crate::roots!(c08_interval_point, c08_interval_interval, c08_interval_set, c08_interval_set_two, c08_interval_range, c08_range_point, c08_point_point, c08_set_point, c08_set_interval, c08_set_range, c08_set_set, c08_set_set_two, c08_set_empty,
    c08_overlap_intervals, c08_overlap_interval_point, c08_overlap_interval_range, c08_overlap_set_interval, c08_overlap_interval_set, c08_overlap_set_point, c08_overlap_set_range, c08_overlap_sets, c08_overlap_sets_two, c08_overlap_two_sets);
