use crate::util::*;
fn met<T: Tp>(r: &TimeInterval<T>, x: i128, want: bool) { sound(r); check(inside(r, x) == want, "the intersection holds exactly the common points") }
pub fn c02_and<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let b: TimeInterval<T> = any(); met(&(a & b), x, inside(&a, x) && inside(&b, x)); }
pub fn c02_and_ref<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let b: TimeInterval<T> = any(); met(&(&a & b), x, inside(&a, x) && inside(&b, x)); }
pub fn c02_and_assign<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let b: TimeInterval<T> = any(); let mut r = a; r &= b; met(&r, x, inside(&a, x) && inside(&b, x)); }
pub fn c02_and_point<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let p: T = mk(finite()); met(&(a & p), x, inside(&a, x) && x == ticks(&p)); }
pub fn c02_and_assign_point<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let p: T = mk(finite()); let mut r = a; r &= p; met(&r, x, inside(&a, x) && x == ticks(&p)); }
pub fn c02_point_and<T: Tp + BitAnd<TimeInterval<T>, Output = TimeInterval<T>>>() { let x = point(); let a: TimeInterval<T> = any(); let p: T = mk(finite()); met(&(p & a), x, inside(&a, x) && x == ticks(&p)); }
pub fn c02_and_range<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let (l, u): (T, T) = (any(), any()); met(&(a & (l..u)), x, inside(&a, x) && ticks(&l) <= x && x < ticks(&u)); }
pub fn c02_and_range_inclusive<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let (l, u): (T, T) = (any(), any()); met(&(a & (l..=u)), x, inside(&a, x) && ticks(&l) <= x && x <= ticks(&u)); }
pub fn c02_and_range_from<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let l: T = any(); met(&(a & (l..)), x, inside(&a, x) && ticks(&l) <= x); }
pub fn c02_and_range_to<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let u: T = any(); met(&(a & (..u)), x, inside(&a, x) && x < ticks(&u)); }
pub fn c02_and_range_to_inclusive<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let u: T = any(); met(&(a & (..=u)), x, inside(&a, x) && x <= ticks(&u)); }
pub fn c02_and_assign_range<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let (l, u): (T, T) = (any(), any()); let mut r = a; r &= l..=u; met(&r, x, inside(&a, x) && ticks(&l) <= x && x <= ticks(&u)); }
crate::roots!(c02_and, c02_and_ref, c02_and_assign, c02_and_point, c02_and_assign_point, c02_point_and, c02_and_range, c02_and_range_inclusive, c02_and_range_from, c02_and_range_to, c02_and_range_to_inclusive, c02_and_assign_range);
