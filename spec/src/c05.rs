use crate::util::*;
fn set<T: Tp>() -> TimeSet<T> { any() }
fn has<T: Tp>(s: &TimeSet<T>) -> bool { hits(s, 0) != 0 }
pub fn c05_and_rr<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); joined(&(&a & &b), w) }
pub fn c05_and_rv<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); joined(&(&a & b), w) }
pub fn c05_and_vr<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); joined(&(a & &b), w) }
pub fn c05_and_vv<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); joined(&(a & b), w) }
pub fn c05_and_assign_v<T: Tp>() { point(); let (mut a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); a &= b; joined(&a, w) }
pub fn c05_and_assign_r<T: Tp>() { point(); let (mut a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); a &= &b; joined(&a, w) }
pub fn c05_and_interval<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) && inside(&i, x); joined(&(a & i), w) }
pub fn c05_and_interval_r<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) && inside(&i, x); joined(&(&a & i), w) }
pub fn c05_and_assign_interval<T: Tp>() { let x = point(); let mut a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) && inside(&i, x); a &= i; joined(&a, w) }
pub fn c05_and_point<T: Tp>() { let x = point(); let a = set::<T>(); let p: T = any(); let w = has(&a) && x == ticks(&p); joined(&(a & p), w) }
pub fn c05_and_assign_point<T: Tp>() { let x = point(); let mut a = set::<T>(); let p: T = any(); let w = has(&a) && x == ticks(&p); a &= p; joined(&a, w) }
pub fn c05_and_range<T: Tp>() { let x = point(); let a = set::<T>(); let (l, u): (T, T) = (any(), any()); let w = has(&a) && (ticks(&l) <= x && x < ticks(&u)); joined(&(a & (l..u)), w) }
pub fn c05_and_range_inclusive<T: Tp>() { let x = point(); let a = set::<T>(); let (l, u): (T, T) = (any(), any()); let w = has(&a) && (ticks(&l) <= x && x <= ticks(&u)); joined(&(a & (l..=u)), w) }
pub fn c05_and_range_from<T: Tp>() { let x = point(); let a = set::<T>(); let l: T = any(); let w = has(&a) && ticks(&l) <= x; joined(&(&a & (l..)), w) }
pub fn c05_and_assign_range_to<T: Tp>() { let x = point(); let mut a = set::<T>(); let u: T = any(); let w = has(&a) && x < ticks(&u); a &= ..u; joined(&a, w) }
fn joined<T: Tp>(r: &TimeSet<T>, want: bool) {
    check(is_canon(r), "the intersection is a sorted list of non-empty intervals separated by at least one tick");
    check((hits(r, 0) != 0) == want, "the intersection holds exactly the points common to the operands");
}
fn drained<T: Tp, I: Iterator<Item = TimeInterval<T>>>(it: I, want: bool) {
    let v: Vec<TimeInterval<T>> = it.collect();
    check(is_canon(&v), "the intersection iterator yields sorted non-empty intervals separated by at least one tick");
    check((hits(&v, 0) != 0) == want, "the intersection iterator yields exactly the points common to the operands");
}
pub fn c05_iter_iter<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); drained((&a).into_iter().intersection((&b).into_iter()), w) }
pub fn c05_iter_set<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); drained(a.into_iter().intersection(b), w) }
pub fn c05_iter_set_ref<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let w = has(&a) && has(&b); drained(a.into_iter().intersection(&b), w) }
pub fn c05_iter_interval<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) && inside(&i, x); drained(a.into_iter().intersection(i), w) }
pub fn c05_iter_interval_ref<T: Tp>() { let x = point(); let a = set::<T>(); let i: TimeInterval<T> = any(); let w = has(&a) && inside(&i, x); drained(a.into_iter().intersection(&i), w) }
pub fn c05_iter_range<T: Tp>() { let x = point(); let a = set::<T>(); let (l, u): (T, T) = (any(), any()); let w = has(&a) && (ticks(&l) <= x && x < ticks(&u)); drained(a.into_iter().intersection(l..u), w) }
pub fn c05_iter_interval_iter<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let i: TimeInterval<T> = any(); let w = inside(&a, x) && inside(&i, x); drained(a.into_iter().intersection(i.into_iter()), w) }
crate::roots!(c05_and_rr, c05_and_rv, c05_and_vr, c05_and_vv, c05_and_assign_v, c05_and_assign_r, c05_and_interval, c05_and_interval_r, c05_and_assign_interval, c05_and_point, c05_and_assign_point, c05_and_range, c05_and_range_inclusive, c05_and_range_from, c05_and_assign_range_to,
    c05_iter_iter, c05_iter_set, c05_iter_set_ref, c05_iter_interval, c05_iter_interval_ref, c05_iter_range, c05_iter_interval_iter);
