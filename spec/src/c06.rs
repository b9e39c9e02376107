use crate::util::*;
fn compl<T: Tp>(r: &TimeSet<T>, had: bool) {
    check(is_canon(r), "the complement is a sorted list of non-empty intervals separated by at least one tick");
    check((hits(r, 0) != 0) == !had, "the complement holds exactly the points the operand does not hold");
}
pub fn c06_not_point<T: Tp + Not<Output = TimeSet<T>>>() { let x = point(); let p: T = any(); let had = ticks(&p) == x; compl(&!p, had) }
pub fn c06_not_interval<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let had = inside(&a, x); compl(&!a, had) }
pub fn c06_not_set<T: Tp>() { point(); let a: TimeSet<T> = any(); let had = hits(&a, 0) != 0; compl(&!a, had) }
fn drained<T: Tp, I: Iterator<Item = TimeInterval<T>>>(it: I, want: bool) {
    let v: Vec<TimeInterval<T>> = it.collect();
    check(is_canon(&v), "the iterator yields sorted non-empty intervals separated by at least one tick");
    check((hits(&v, 0) != 0) == want, "the iterator yields exactly the expected points");
}
pub fn c06_iter_set<T: Tp>() { point(); let a: TimeSet<T> = any(); let had = hits(&a, 0) != 0; drained(a.into_iter().complementary(), !had) }
pub fn c06_iter_set_ref<T: Tp>() { point(); let a: TimeSet<T> = any(); let had = hits(&a, 0) != 0; drained((&a).into_iter().complementary(), !had) }
pub fn c06_iter_interval<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let had = inside(&a, x); drained(a.into_iter().complementary(), !had) }
pub fn c06_iter_twice<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let had = inside(&a, x); drained(a.into_iter().complementary().complementary(), had) }
pub fn c06_excl_set<T: Tp>() { point(); let a: TimeSet<T> = any(); let b: TimeSet<T> = any(); let w = hits(&a, 0) != 0 && hits(&b, 0) == 0; drained(a.into_iter().exclusion(b.into_iter()), w) }
pub fn c06_excl_interval<T: Tp>() { let x = point(); let a: TimeSet<T> = any(); let b: TimeInterval<T> = any(); let w = hits(&a, 0) != 0 && !inside(&b, x); drained(a.into_iter().exclusion(b.into_iter()), w) }
pub fn c06_interval_excl_set<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let b: TimeSet<T> = any(); let w = inside(&a, x) && hits(&b, 0) == 0; drained(a.into_iter().exclusion(b.into_iter()), w) }
crate::roots!(c06_not_point, c06_not_interval, c06_not_set, c06_iter_set, c06_iter_set_ref, c06_iter_interval, c06_iter_twice, c06_excl_set, c06_excl_interval, c06_interval_excl_set);
