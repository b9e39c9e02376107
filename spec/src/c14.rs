use crate::util::*;
const C: &str = "the translated sequence is sorted, disjoint, without empty or adjacent intervals";
const P: &str = "a point is in the result just when it is the sum (difference) of a point of the sequence and a duration of the interval";
fn inf(b: i128) -> bool { b == M || b == -M }
fn plus(a: i128, b: i128) -> i128 { if inf(a) { a } else if inf(b) { b } else { a + b } }
/// (a, b) are the bounds of the durations added; finite bounds have finite sums
fn sums<T: Tp>(c: usize, v: [TimeInterval<T>; 3], a: i128, b: i128, y: i128) -> bool {
    let mut w = false;
    for (k, i) in v.into_iter().enumerate() {
        if k == c { break }
        let (l, u) = bounds(&i);
        if !inf(l) && !inf(a) { assume(l + a > -M); assume(l + a < M) }
        if !inf(u) && !inf(b) { assume(u + b > -M); assume(u + b < M) }
        if plus(l, a) <= y && y <= plus(u, b) { w = true }
    }
    w
}
fn wide<T: Tp>(neg: bool, f: impl FnOnce(TimeSet<T>, TimeSpan) -> TimeSet<T>) {
    let y = finite(); ghost(y, y);
    let (s, c, v) = few::<T>();
    let d: TimeSpan = nonempty(); let (a, b) = bounds(&d);
    let w = if neg { sums(c, v, -b, -a, y) } else { sums(c, v, a, b, y) };
    let r = f(s, d);
    check(is_canon(&r), C);
    check((hits(&r, 0) != 0) == w, P);
}
pub fn c14_add<T: Tp>() { wide::<T>(false, |s, d| s + d) }
pub fn c14_sub<T: Tp>() { wide::<T>(true, |s, d| s - d) }
pub fn c14_add_assign<T: Tp>() { wide::<T>(false, |mut s, d| { s += d; s }) }
pub fn c14_sub_assign<T: Tp>() { wide::<T>(true, |mut s, d| { s -= d; s }) }
pub fn c14_translation<T: Tp>() { wide::<T>(false, |s, d| s.into_iter().translation(&d).collect()) }
crate::roots!(c14_add, c14_sub, c14_add_assign, c14_sub_assign, c14_translation);
/// at most three intervals against one interval of durations in a set, and one interval against two
fn alone<T: Tp>(neg: bool, f: impl FnOnce(TimeSet<T>, TimeSpans) -> TimeSet<T>) { wide::<T>(neg, |s, d| f(s, TimeSpans::from_iter([d]))) }
fn both<T: Tp>(neg: bool, f: impl FnOnce(TimeSet<T>, TimeSpans) -> TimeSet<T>) {
    let y = finite(); ghost(y, y);
    unroll();
    let i: TimeInterval<T> = nonempty();
    let (d, e): (TimeSpan, TimeSpan) = (nonempty(), nonempty());
    assume(bounds(&d).1 + 2 <= bounds(&e).0);
    let mut w = false;
    for j in [d, e] { let (a, b) = bounds(&j); let (a, b) = if neg { (-b, -a) } else { (a, b) }; if sums(1, [i, i, i], a, b, y) { w = true } }
    let r = f(TimeSet::from_iter([i]), TimeSpans::from_iter([d, e]));
    check(is_canon(&r), C);
    check((hits(&r, 0) != 0) == w, P);
}
pub fn c14_add_one<T: Tp>() { alone::<T>(false, |s, d| s + d) }
pub fn c14_sub_one<T: Tp>() { alone::<T>(true, |s, d| s - d) }
pub fn c14_add_two<T: Tp>() { both::<T>(false, |s, d| s + d) }
pub fn c14_sub_two<T: Tp>() { both::<T>(true, |s, d| s - d) }
crate::roots!(c14_add_one, c14_sub_one, c14_add_two, c14_sub_two);
