use crate::util::*;
const L: &str = "a finite lower bound moves by exactly the duration, an infinite one stays infinite";
const U: &str = "a finite upper bound moves by exactly the duration, an infinite one stays infinite";
const N: &str = "no point remains empty and some points remain some points";
const P: &str = "the translated set holds exactly the translated points";
const C: &str = "the translated set is a sorted list of non-empty intervals separated by at least one tick";
fn inf(b: i128) -> bool { b == M || b == -M }
fn dur() -> (TimeValue, i128) { let d = finite(); (mk(d), d) }
/// an interval whose finite bounds stay finite when moved by a and b
fn window<T: Tp>(a: i128, b: i128) -> (TimeInterval<T>, i128, i128) {
    let i: TimeInterval<T> = any(); let (l, u) = bounds(&i);
    if !inf(l) { assume(l + a > -M); assume(l + a < M) }
    if !inf(u) { assume(u + b > -M); assume(u + b < M) }
    (i, l, u)
}
fn moved<T: Tp>(r: &TimeInterval<T>, l: i128, u: i128, a: i128, b: i128) {
    sound(r);
    let (x, y) = bounds(r);
    check(x == if inf(l) { l } else { l + a }, L);
    check(y == if inf(u) { u } else { u + b }, U);
    check((x == M) == (l == M), N);
}
pub fn c13_add<T: Tp>() { let (t, d) = dur(); let (i, l, u) = window::<T>(d, d); moved(&(i + t), l, u, d, d) }
pub fn c13_sub<T: Tp>() { let (t, d) = dur(); let (i, l, u) = window::<T>(-d, -d); moved(&(i - t), l, u, -d, -d) }
pub fn c13_add_assign<T: Tp>() { let (t, d) = dur(); let (i, l, u) = window::<T>(d, d); let mut r = i; r += t; moved(&r, l, u, d, d) }
pub fn c13_sub_assign<T: Tp>() { let (t, d) = dur(); let (i, l, u) = window::<T>(-d, -d); let mut r = i; r -= t; moved(&r, l, u, -d, -d) }
pub fn c13_radd<T: Tp>() { let (t, d) = dur(); let (i, l, u) = window::<T>(d, d); moved(&(t + i), l, u, d, d) }
pub fn c13_rsub<T: Tp>() { let (t, d) = dur(); let (i, l, u) = window::<T>(-d, -d); moved(&(t - i), -u, -l, d, d) }
/// a sum of bounds: infinite as soon as one is
fn plus(a: i128, b: i128) -> i128 { if inf(a) { a } else if inf(b) { b } else { a + b } }
fn summed<T: Tp>(r: &TimeInterval<T>, empty: bool, l: (i128, i128), u: (i128, i128)) {
    sound(r);
    let (x, y) = bounds(r);
    if empty { check(vacant(r), N) } else { check(x == plus(l.0, l.1), L); check(y == plus(u.0, u.1), U) }
}
/// finite bounds have finite sums
fn pair<T: Tp>(cross: bool) -> (TimeInterval<T>, TimeSpan, bool, (i128, i128), (i128, i128)) {
    let i: TimeInterval<T> = any(); let j: TimeSpan = any();
    let e = vacant(&i) || vacant(&j);
    let (l, u) = bounds(&i); let (a, b) = bounds(&j); let (a, b) = if cross { (-b, -a) } else { (a, b) };
    if !inf(l) && !inf(a) { assume(l + a > -M); assume(l + a < M) }
    if !inf(u) && !inf(b) { assume(u + b > -M); assume(u + b < M) }
    (i, j, e, (l, a), (u, b))
}
pub fn c13_add_span<T: Tp>() { let (i, j, e, l, u) = pair::<T>(false); summed(&(i + j), e, l, u) }
pub fn c13_sub_span<T: Tp>() { let (i, j, e, l, u) = pair::<T>(true); summed(&(i - j), e, l, u) }
pub fn c13_add_assign_span<T: Tp>() { let (i, j, e, l, u) = pair::<T>(false); let mut r = i; r += j; summed(&r, e, l, u) }
pub fn c13_sub_assign_span<T: Tp>() { let (i, j, e, l, u) = pair::<T>(true); let mut r = i; r -= j; summed(&r, e, l, u) }
crate::roots!(c13_add, c13_sub, c13_add_assign, c13_sub_assign, c13_radd, c13_rsub, c13_add_span, c13_sub_span, c13_add_assign_span, c13_sub_assign_span);
pub fn c13_stamp_add_span() { let d = finite(); let t: Timestamp = mk(d); let (i, l, u) = window::<TimeValue>(d, d); moved(&(t + i), l, u, d, d) }
pub fn c13_span_add_stamp() { let d = finite(); let t: Timestamp = mk(d); let (i, l, u) = window::<TimeValue>(d, d); moved(&(i + t), l, u, d, d) }
pub fn c13_stamp_sub_span() { let d = finite(); let t: Timestamp = mk(d); let (i, l, u) = window::<TimeValue>(-d, -d); moved(&(t - i), -u, -l, d, d) }
pub fn c13_span_sub_stamp() { let d = finite(); let t: Timestamp = mk(d); let (i, l, u) = window::<TimeValue>(-d, -d); moved(&(i - t), l, u, -d, -d) }
pub fn c13_slot_sub_stamp() { let d = finite(); let t: Timestamp = mk(d); let (i, l, u) = window::<Timestamp>(-d, -d); moved(&(i - t), l, u, -d, -d) }
pub fn c13_stamp_sub_slot() { let d = finite(); let t: Timestamp = mk(d); let (i, l, u) = window::<Timestamp>(-d, -d); moved(&(t - i), -u, -l, d, d) }
pub fn c13_slot_sub_slot() {
    let i: TimeSlot = any(); let j: TimeSlot = any(); let e = vacant(&i) || vacant(&j);
    let (l, u) = bounds(&i); let (a, b) = bounds(&j);
    if !inf(l) && !inf(b) { assume(l - b > -M); assume(l - b < M) }
    if !inf(u) && !inf(a) { assume(u - a > -M); assume(u - a < M) }
    summed(&(i - j), e, (l, -b), (u, -a))
}
/// x lies in the set exactly when x + d (flip: d - x) lies in the result
fn shift<S: Tp, T: Tp>(d: i128, flip: bool, f: impl FnOnce(TimeSet<S>) -> TimeSet<T>) {
    let y = finite(); ghost(y, y);
    let (s, c, v) = few::<S>();
    let mut w = false; let (mut lo, mut hi) = (M, -M);
    for (k, i) in v.into_iter().enumerate() {
        if k == c { break }
        let (l, u) = bounds(&i); let (l, u) = if flip { (-u, -l) } else { (l, u) };
        if !inf(l) { assume(l + d > -M); assume(l + d < M) }
        if !inf(u) { assume(u + d > -M); assume(u + d < M) }
        let (l, u) = (plus(l, d), plus(u, d));
        if l <= y && y <= u { w = true }
        if l < lo { lo = l }
        if u > hi { hi = u }
    }
    let r = f(s);
    check(is_canon(&r), C);
    check((hits(&r, 0) != 0) == w, P);
    check(ticks(&r.lower_bound()) == lo, L);
    check(ticks(&r.upper_bound()) == hi, U);
}
pub fn c13_set_add<T: Tp>() { let (t, d) = dur(); shift::<T, T>(d, false, |s| s + t) }
pub fn c13_set_sub<T: Tp>() { let (t, d) = dur(); shift::<T, T>(-d, false, |s| s - t) }
pub fn c13_set_add_assign<T: Tp>() { let (t, d) = dur(); shift::<T, T>(d, false, |mut s| { s += t; s }) }
pub fn c13_set_sub_assign<T: Tp>() { let (t, d) = dur(); shift::<T, T>(-d, false, |mut s| { s -= t; s }) }
pub fn c13_set_translation<T: Tp>() { let (t, d) = dur(); shift::<T, T>(d, false, |s| s.into_iter().translation(t).collect()) }
crate::roots!(c13_set_add, c13_set_sub, c13_set_add_assign, c13_set_sub_assign, c13_set_translation);
pub fn c13_set_add_timestamp() { let d = finite(); let t: Timestamp = mk(d); shift::<TimeValue, Timestamp>(d, false, |s| s + t) }
pub fn c13_set_sub_timestamp() { let d = finite(); let t: Timestamp = mk(d); shift::<TimeValue, Timestamp>(-d, false, |s| s - t) }
pub fn c13_stamp_add_set() { let d = finite(); let t: Timestamp = mk(d); shift::<TimeValue, Timestamp>(d, false, |s| t + s) }
pub fn c13_stamp_sub_set() { let d = finite(); let t: Timestamp = mk(d); shift::<TimeValue, Timestamp>(d, true, |s| t - s) }
