use crate::util::*;
use std::cmp::Ordering;
fn set<T: Tp>() -> TimeSet<T> { any() }
const E: &str = "windows are equal exactly when they contain the same points";
const L: &str = "less and greater say that all points of one come before all points of the other";
const P: &str = "the partial comparison reports the relation that holds";
/// order of two windows with the given bounds (none of them empty), equal or not
fn ordered<A: PartialOrd<B>, B>(a: &A, b: &B, (l, u): (i128, i128), (p, q): (i128, i128), same: impl Fn() -> bool) {
    // each answer is taken before it is compared, so that the cases split as late as possible
    let (a_lt, a_gt) = (a.lt(b), a.gt(b)); check(a_lt == (u < p), L); check(a_gt == (l > q), L);
    let r = a.le(b); check(r == (u < p || same()), L); let r = a.ge(b); check(r == (l > q || same()), L);
    let r = a.partial_cmp(b); let (lt, gt) = (u < p, l > q);
    check(r == if same() { Some(Ordering::Equal) } else if lt { Some(Ordering::Less) } else if gt { Some(Ordering::Greater) } else { None }, P);
}
/// at most one relation, whatever the windows
fn compared<T: Tp, A: PartialOrd<B> + TimeBounds<TimePoint = T>, B: TimeBounds<TimePoint = T>>(a: &A, b: &B) {
    let (l, u, p, q) = (ticks(&a.lower_bound()), ticks(&a.upper_bound()), ticks(&b.lower_bound()), ticks(&b.upper_bound()));
    let some = l < M && p < M; let (lt, gt) = (some && u < p, some && l > q);
    let r = a.partial_cmp(b);
    check((r == Some(Ordering::Less)) == lt, P); check((r == Some(Ordering::Greater)) == gt, P);
}
fn exclusive<A: PartialOrd<B>, B>(a: &A, b: &B) {
    let (lt, gt, eq) = (a.lt(b), a.gt(b), a.eq(b));
    check(!(lt && gt) && !(lt && eq) && !(gt && eq), "at most one of less, equal and greater holds");
}
pub fn c23_intervals<T: Tp>() { let (a, b): (TimeInterval<T>, TimeInterval<T>) = (nonempty(), nonempty()); let r = a.eq(&b); check(r == (bounds(&a) == bounds(&b)), E); let r = a.ne(&b); check(r == (bounds(&a) != bounds(&b)), E); ordered(&a, &b, bounds(&a), bounds(&b), || bounds(&a) == bounds(&b)) }
pub fn c23_intervals_eq<T: Tp>() { let (a, b): (TimeInterval<T>, TimeInterval<T>) = (any(), any()); check(a.eq(&b) == (bounds(&a) == bounds(&b)), E); exclusive(&a, &b) }
pub fn c23_interval_point<T: Tp>() { let a: TimeInterval<T> = nonempty(); let x = finite(); let t = mk::<T>(x); check(a.eq(&t) == (bounds(&a) == (x, x)), E); ordered(&a, &t, bounds(&a), (x, x), || bounds(&a) == (x, x)) }
pub fn c23_interval_range<T: Tp>() { let a: TimeInterval<T> = nonempty(); let (p, q) = (finite(), finite()); assume(p < q); let r = mk::<T>(p)..mk::<T>(q); let b = (p, q - 1); check(a.eq(&r) == (bounds(&a) == b), E); ordered(&a, &r, bounds(&a), b, || bounds(&a) == b) }
pub fn c23_interval_set<T: Tp>() {
    let a: TimeInterval<T> = nonempty(); let (l, u) = bounds(&a); ghost(l, u); let x = finite(); ghost(x, x);
    let s = set::<T>(); let r = a.eq(&s);
    if r { check((hits(&s, 1) != 0) == inside(&a, x), E); check(hits(&s, 0) == 2, E) }
    exclusive(&a, &s)
}
pub fn c23_interval_set_one<T: Tp>() { let (a, i): (TimeInterval<T>, TimeInterval<T>) = (any(), any()); let s: TimeSet<T> = i.into(); let r = a.eq(&s); check(r == (bounds(&a) == bounds(&i)), E); let r = s.eq(&a); check(r == (bounds(&a) == bounds(&i)), E); if !vacant(&a) && !vacant(&i) { ordered(&a, &s, bounds(&a), bounds(&i), || bounds(&a) == bounds(&i)); ordered(&s, &a, bounds(&i), bounds(&a), || bounds(&a) == bounds(&i)) } }
fn two<T: Tp>() -> (TimeSet<T>, TimeInterval<T>, TimeInterval<T>) { let (i, j): (TimeInterval<T>, TimeInterval<T>) = (nonempty(), nonempty()); let ((_, u), (p, _)) = (bounds(&i), bounds(&j)); assume(u + 1 < p); ([i, j].into_iter().collect(), i, j) }
pub fn c23_interval_set_two<T: Tp>() { let a: TimeInterval<T> = nonempty(); let (s, i, j) = two::<T>(); let b = (bounds(&i).0, bounds(&j).1); check(!a.eq(&s), E); ordered(&a, &s, bounds(&a), b, || false) }
pub fn c23_set_two_interval<T: Tp>() { let a: TimeInterval<T> = nonempty(); let (s, i, j) = two::<T>(); let b = (bounds(&i).0, bounds(&j).1); check(!s.eq(&a), E); ordered(&s, &a, b, bounds(&a), || false) }
pub fn c23_set_interval<T: Tp>() {
    let a: TimeInterval<T> = nonempty(); let x = finite(); ghost(x, x);
    let s = set::<T>(); let r = s.eq(&a);
    if r { check((hits(&s, 0) != 0) == inside(&a, x), E) }
    exclusive(&s, &a)
}
pub fn c23_sets<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); let r = a.eq(&b); if r { check((hits(&a, 0) != 0) == (hits(&b, 0) != 0), E) } }
pub fn c23_sets_equal<T: Tp>() { point(); let (a, b) = (set::<T>(), set::<T>()); if a.partial_cmp(&b) == Some(Ordering::Equal) { check((hits(&a, 0) != 0) == (hits(&b, 0) != 0), E) } }
pub fn c23_empties<T: Tp>() { let (a, b) = (TimeInterval::<T>::empty(), TimeSet::<T>::empty()); check(a == b && b == a && !(a < b) && !(a > b) && a <= b && a >= b, E); check(a.partial_cmp(&b) == Some(Ordering::Equal) && b.partial_cmp(&a) == Some(Ordering::Equal) && b.partial_cmp(&TimeSet::empty()) == Some(Ordering::Equal), P) }
pub fn c23_sets_exclusive<T: Tp>() { let (a, b) = (set::<T>(), set::<T>()); exclusive(&a, &b) }
pub fn c23_sets_compared<T: Tp>() { let (a, b) = (set::<T>(), set::<T>()); compared(&a, &b) }
pub fn c23_set_interval_compared<T: Tp>() { let a = set::<T>(); let b: TimeInterval<T> = any(); compared(&a, &b) }
pub fn c23_interval_set_compared<T: Tp>() { let b = set::<T>(); let a: TimeInterval<T> = any(); compared(&a, &b) }
pub fn c23_sets_two<T: Tp>() { let (a, i, j) = two::<T>(); let (b, k, l) = two::<T>(); let same = || bounds(&i) == bounds(&k) && bounds(&j) == bounds(&l); let r = a.eq(&b); check(r == same(), E); ordered(&a, &b, (bounds(&i).0, bounds(&j).1), (bounds(&k).0, bounds(&l).1), same) }
/// less: no point of the first at or after a point of the second
pub fn c23_sets_less<T: Tp>() { let x = point(); let y = finite(); ghost(y, y); let (a, b) = (set::<T>(), set::<T>()); let (lt, gt) = (a.lt(&b), a.gt(&b)); if hits(&a, 0) != 0 && hits(&b, 1) != 0 { if lt { check(x < y, L) } if gt { check(x > y, L) } } }
crate::roots!(c23_intervals, c23_intervals_eq, c23_interval_point, c23_interval_range, c23_interval_set, c23_interval_set_one, c23_interval_set_two, c23_set_two_interval, c23_set_interval, c23_sets, c23_sets_compared, c23_set_interval_compared, c23_interval_set_compared, c23_sets_equal, c23_empties, c23_sets_exclusive, c23_sets_two, c23_sets_less);
/// a hasher that remembers what it is fed
struct Fed { n: usize, a: [i128; 16] }
impl Fed { fn put(&mut self, x: i128) { if self.n < 16 { self.a[self.n] = x; self.n += 1 } } }
impl core::hash::Hasher for Fed {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) { let x: i64 = any(); self.put(x as i128) }
    fn write_i64(&mut self, x: i64) { self.put(x as i128) }
    fn write_u64(&mut self, x: u64) { self.put(x as i128) }
    fn write_usize(&mut self, x: usize) { self.put(x as i128) }
    fn write_isize(&mut self, x: isize) { self.put(x as i128) }
    fn write_i128(&mut self, x: i128) { self.put(x) }
    fn write_u8(&mut self, x: u8) { self.put(x as i128) }
    fn write_u32(&mut self, x: u32) { self.put(x as i128) }
    fn write_i32(&mut self, x: i32) { self.put(x as i128) }
}
const HASH: &str = "equal values are hashed alike";
fn hashed<T: core::hash::Hash>(a: &T, b: &T) {
    let (mut f, mut g) = (Fed { n: 0, a: [0; 16] }, Fed { n: 0, a: [0; 16] });
    a.hash(&mut f); b.hash(&mut g);
    check(f.n == g.n, HASH);
    for k in 0..16 { if k < f.n { check(f.a[k] == g.a[k], HASH) } }
}
pub fn c23_hash_value() { unroll(); let (a, b): (TimeValue, TimeValue) = (any(), any()); if a == b { hashed(&a, &b) } }
pub fn c23_hash_stamp() { unroll(); let (a, b): (Timestamp, Timestamp) = (any(), any()); if a == b { hashed(&a, &b) } }
pub fn c23_hash_interval() { unroll(); let (a, b): (TimeSlot, TimeSlot) = (any(), any()); if a == b { hashed(&a, &b) } }
