use crate::util::*;
use crate::c03::joined;
fn set<T: Tp>() -> TimeSet<T> { any() }
fn has<T: Tp>(s: &TimeSet<T>) -> bool { hits(s, 0) != 0 }
pub fn c04_or_rr<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); joined(&(&a | &b), w) }
pub fn c04_or_rv<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); joined(&(&a | b), w) }
pub fn c04_or_vr<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); joined(&(a | &b), w) }
pub fn c04_or_vv<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); joined(&(a | b), w) }
pub fn c04_or_assign_v<T: Tp>() { point(); let (mut a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); a |= b; joined(&a, w) }
pub fn c04_or_assign_r<T: Tp>() { point(); let (mut a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); a |= &b; joined(&a, w) }
pub fn c04_or_interval<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) || inside(&i, x); joined(&(a | i), w) }
pub fn c04_or_interval_r<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) || inside(&i, x); joined(&(&a | i), w) }
pub fn c04_or_assign_interval<T: Tp>() { let x = point(); let mut a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) || inside(&i, x); a |= i; joined(&a, w) }
pub fn c04_or_point<T: Tp>() { let x = point(); let a = set::<T>(); let p: T = any(); let w = has(&a) || x == ticks(&p); joined(&(a | p), w) }
pub fn c04_or_assign_point<T: Tp>() { let x = point(); let mut a = set::<T>(); let p: T = any(); let w = has(&a) || x == ticks(&p); a |= p; joined(&a, w) }
pub fn c04_or_range<T: Tp>() { let x = point(); let a = set::<T>(); let (l, u): (T, T) = (any(), any()); let w = has(&a) || (ticks(&l) <= x && x < ticks(&u)); joined(&(a | (l..u)), w) }
pub fn c04_or_range_inclusive<T: Tp>() { let x = point(); let a = set::<T>(); let (l, u): (T, T) = (any(), any()); let w = has(&a) || (ticks(&l) <= x && x <= ticks(&u)); joined(&(a | (l..=u)), w) }
pub fn c04_or_range_from<T: Tp>() { let x = point(); let a = set::<T>(); let l: T = any(); let w = has(&a) || ticks(&l) <= x; joined(&(&a | (l..)), w) }
pub fn c04_or_assign_range_to<T: Tp>() { let x = point(); let mut a = set::<T>(); let u: T = any(); let w = has(&a) || x < ticks(&u); a |= ..u; joined(&a, w) }
fn drained<T: Tp, I: Iterator<Item = TimeInterval<T>>>(it: I, want: bool) {
    let v: Vec<TimeInterval<T>> = it.collect();
    check(is_canon(&v), "the union iterator yields sorted non-empty intervals separated by at least one tick");
    check((hits(&v, 0) != 0) == want, "the union iterator yields exactly the points of the operands");
}
pub fn c04_iter_iter<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); drained((&a).into_iter().union((&b).into_iter()), w) }
pub fn c04_iter_set<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); drained(a.into_iter().union(b), w) }
pub fn c04_iter_set_ref<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) || has(&b); drained(a.into_iter().union(&b), w) }
pub fn c04_iter_interval<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) || inside(&i, x); drained(a.into_iter().union(i), w) }
pub fn c04_iter_interval_ref<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) || inside(&i, x); drained(a.into_iter().union(&i), w) }
pub fn c04_iter_range<T: Tp>() { let x = point(); let a = set::<T>(); let (l, u): (T, T) = (any(), any()); let w = has(&a) || (ticks(&l) <= x && x < ticks(&u)); drained(a.into_iter().union(l..u), w) }
pub fn c04_iter_interval_iter<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let i: TimeInterval<T> = any(); let w = inside(&a, x) || inside(&i, x); drained(a.into_iter().union(i.into_iter()), w) }
crate::roots!(c04_or_rr, c04_or_rv, c04_or_vr, c04_or_vv, c04_or_assign_v, c04_or_assign_r, c04_or_interval, c04_or_interval_r, c04_or_assign_interval, c04_or_point, c04_or_assign_point, c04_or_range, c04_or_range_inclusive, c04_or_range_from, c04_or_assign_range_to,
    c04_iter_iter, c04_iter_set, c04_iter_set_ref, c04_iter_interval, c04_iter_interval_ref, c04_iter_range, c04_iter_interval_iter);
