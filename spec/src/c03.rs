use crate::util::*;
pub fn joined<T: Tp>(r: &TimeSet<T>, want: bool) {
    check(is_canon(r), "the union is a sorted list of non-empty intervals separated by at least one tick");
    check((hits(r, 0) != 0) == want, "the union holds exactly the points of the operands");
}
pub fn c03_or<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let b: TimeInterval<T> = any(); let w = inside(&a, x) || inside(&b, x); joined(&(a | b), w); }
pub fn c03_or_ref<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let b: TimeInterval<T> = any(); let w = inside(&a, x) || inside(&b, x); joined(&(&a | b), w); }
pub fn c03_or_point<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let p: T = any(); let w = inside(&a, x) || ticks(&p) == x; joined(&(a | p), w); }
pub fn c03_point_or<T: Tp + BitOr<TimeInterval<T>, Output = TimeSet<T>>>() { let x = point(); let a: TimeInterval<T> = any(); let p: T = any(); let w = inside(&a, x) || ticks(&p) == x; joined(&(p | a), w); }
pub fn c03_point_or_point<T: Tp + BitOr<T, Output = TimeSet<T>>>() { let x = point(); let q: T = any(); let p: T = any(); let w = ticks(&q) == x || ticks(&p) == x; joined(&(p | q), w); }
pub fn c03_or_range<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let (l, u): (T, T) = (any(), any()); let w = inside(&a, x) || (ticks(&l) <= x && x < ticks(&u)); joined(&(a | (l..u)), w); }
pub fn c03_or_range_inclusive<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let (l, u): (T, T) = (any(), any()); let w = inside(&a, x) || (ticks(&l) <= x && x <= ticks(&u)); joined(&(a | (l..=u)), w); }
pub fn c03_or_range_from<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let l: T = any(); let w = inside(&a, x) || ticks(&l) <= x; joined(&(a | (l..)), w); }
pub fn c03_or_range_to<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let u: T = any(); let w = inside(&a, x) || x < ticks(&u); joined(&(a | (..u)), w); }
pub fn c03_or_range_to_inclusive<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let u: T = any(); let w = inside(&a, x) || x <= ticks(&u); joined(&(a | (..=u)), w); }
crate::roots!(c03_or, c03_or_ref, c03_or_point, c03_point_or, c03_point_or_point, c03_or_range, c03_or_range_inclusive, c03_or_range_from, c03_or_range_to, c03_or_range_to_inclusive);
