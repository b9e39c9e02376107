use crate::util::*;
fn built<T: Tp>(r: &TimeSet<T>, want: bool) {
    check(is_canon(r), "the set is a sorted list of non-empty intervals separated by at least one tick");
    check((hits(r, 0) != 0) == want, "the set holds exactly the points of its parts");
    check(r.is_empty() == (raw_len(r) == 0), "is_empty tells whether the list is empty");
}
/// an arbitrary list of intervals, in any order, which knows whether a part holds x
pub struct Parts<T> { left: usize, x: i128, seen: bool, _t: std::marker::PhantomData<T> }
impl<T: Tp> Iterator for &mut Parts<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<TimeInterval<T>> {
        if self.left == 0 { return None }
        self.left -= 1;
        let i: TimeInterval<T> = any();
        if inside(&i, self.x) { self.seen = true }
        Some(i)
    }
}
pub fn c07_collect_any<T: Tp>() {
    let x = point();
    let mut p: Parts<T> = Parts { left: any(), x, seen: false, _t: std::marker::PhantomData };
    let s: TimeSet<T> = TimeSet::from_iter(&mut p);
    built(&s, p.seen)
}
pub fn c07_collect_sets<T: Tp>() {
    point(); let a: TimeSet<T> = any(); let b: TimeSet<T> = any();
    let w = hits(&a, 0) != 0 || hits(&b, 0) != 0;
    let s: TimeSet<T> = [a, b].into_iter().collect();
    built(&s, w)
}
pub fn c07_collect_own<T: Tp>() { point(); let a: TimeSet<T> = any(); let w = hits(&a, 0) != 0; let s: TimeSet<T> = a.into_iter().collect(); built(&s, w) }
pub fn c07_all<T: Tp>() { point(); built::<T>(&TimeSet::all(), true) }
pub fn c07_empty<T: Tp>() { point(); built::<T>(&TimeSet::empty(), false) }
pub fn c07_convex<T: Tp>() { let x = point(); let (a, b): (T, T) = (any(), any()); built::<T>(&TimeSet::convex(a, b), ticks(&a) <= x && x <= ticks(&b)) }
pub fn c07_singleton<T: Tp>() { let x = point(); let a: T = any(); built::<T>(&TimeSet::singleton(a), ticks(&a) == x) }
pub fn c07_from_point<T: Tp>() { let x = point(); let a: T = any(); built::<T>(&TimeSet::from(a), ticks(&a) == x) }
pub fn c07_from_interval<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); built::<T>(&TimeSet::from(a), inside(&a, x)) }
pub fn c07_from_range<T: Tp>() { let x = point(); let (a, b): (T, T) = (any(), any()); built::<T>(&TimeSet::from(a..b), ticks(&a) <= x && x < ticks(&b)) }
pub fn c07_from_range_inclusive<T: Tp>() { let x = point(); let (a, b): (T, T) = (any(), any()); built::<T>(&TimeSet::from(a..=b), ticks(&a) <= x && x <= ticks(&b)) }
pub fn c07_from_range_from<T: Tp>() { let x = point(); let a: T = any(); built::<T>(&TimeSet::from(a..), ticks(&a) <= x) }
pub fn c07_from_range_to<T: Tp>() { let x = point(); let b: T = any(); built::<T>(&TimeSet::from(..b), x < ticks(&b)) }
pub fn c07_from_range_to_inclusive<T: Tp>() { let x = point(); let b: T = any(); built::<T>(&TimeSet::from(..=b), x <= ticks(&b)) }
pub fn c07_clone<T: Tp>() { point(); let a: TimeSet<T> = any(); let w = hits(&a, 0) != 0; built(&a.clone(), w) }
pub fn c07_neg<T: Tp>() { let x = point(); ghost(-x, -x); let a: TimeSet<T> = any(); let w = hits(&a, 1) != 0; built(&-a, w) }
crate::roots!(c07_collect_any, c07_collect_sets, c07_collect_own, c07_all, c07_empty, c07_convex, c07_singleton, c07_from_point, c07_from_interval, c07_from_range, c07_from_range_inclusive, c07_from_range_from, c07_from_range_to, c07_from_range_to_inclusive, c07_clone, c07_neg);
