use crate::util::*;
const K: &str = "truncation keeps exactly the points on the requested side";
const R: &str = "truncation tells whether a point was lost";
const F: &str = "the truncated window is in canonical form";
fn iv_is<T: Tp>(i: &TimeInterval<T>, l: i128, u: i128) -> bool { let (a, b) = bounds(i); if l > u || l >= M || u <= -M { a == M && b == -M } else { a == l && b == u } }
pub fn c09_interval_before<T: Tp>() {
    let mut i: TimeInterval<T> = any(); let t: T = any(); let (l, u) = bounds(&i); let c = ticks(&t); let v = vacant(&i);
    let r = i.truncate_before(t);
    if v { check(vacant(&i), K); check(!r, R) } else { check(iv_is(&i, if l < c { c } else { l }, u), K); check(r == (l < c), R) }
}
pub fn c09_interval_after<T: Tp>() {
    let mut i: TimeInterval<T> = any(); let t: T = any(); let (l, u) = bounds(&i); let c = ticks(&t); let v = vacant(&i);
    let r = i.truncate_after(t);
    if v { check(vacant(&i), K); check(!r, R) } else { check(iv_is(&i, l, if u > c { c } else { u }), K); check(r == (u > c), R) }
}
// the point tracked is any finite point: what the set holds is compared before and after
pub fn c09_set_before<T: Tp>() {
    let x = point(); let t: T = any(); let c = ticks(&t); let mut s: TimeSet<T> = any(); let w = hits(&s, 0) != 0;
    let r = s.truncate_before(t);
    check(is_canon(&s), F); check((hits(&s, 0) != 0) == (w && x >= c), K);
    if w && x < c { check(r, R) }
}
pub fn c09_set_after<T: Tp>() {
    let x = point(); let t: T = any(); let c = ticks(&t); let mut s: TimeSet<T> = any(); let w = hits(&s, 0) != 0;
    let r = s.truncate_after(t);
    check(is_canon(&s), F); check((hits(&s, 0) != 0) == (w && x <= c), K);
    if w && x > c { check(r, R) }
}
// the window tracked is the whole removed side: something was lost exactly when the set met it
pub fn c09_set_before_told<T: Tp>() { let t: T = any(); let c = ticks(&t); assume(c > -M); assume(c < M); ghost(-M, c - 1); let mut s: TimeSet<T> = any(); let w = hits(&s, 0) != 0; check(s.truncate_before(t) == w, R) }
pub fn c09_set_after_told<T: Tp>() { let t: T = any(); let c = ticks(&t); assume(c > -M); assume(c < M); ghost(c + 1, M); let mut s: TimeSet<T> = any(); let w = hits(&s, 0) != 0; check(s.truncate_after(t) == w, R) }
pub fn c09_set_before_none<T: Tp>() { let mut s: TimeSet<T> = any(); check(!s.truncate_before(-T::INFINITE), R); let n = raw_len(&s); check(s.truncate_before(T::INFINITE) == (n != 0), R); check(raw_len(&s) == 0, K) }
pub fn c09_set_after_none<T: Tp>() { let mut s: TimeSet<T> = any(); check(!s.truncate_after(T::INFINITE), R); let n = raw_len(&s); check(s.truncate_after(-T::INFINITE) == (n != 0), R); check(raw_len(&s) == 0, K) }
crate::roots!(c09_interval_before, c09_interval_after, c09_set_before, c09_set_after, c09_set_before_told, c09_set_after_told, c09_set_before_none, c09_set_after_none);
