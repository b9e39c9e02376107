pub use crate::rt::{self, allow_panic, any, any_raw, assume, bounds, check, cut, ghost, hits, is_canon, mk, mk_interval, raw_len, ticks, unroll};
pub use chronologic::iter::*;
pub use chronologic::*;
pub use std::ops::*;

/// +oo in ticks
pub const M: i128 = i64::MAX as i128;

pub trait Tp: TimePoint + TimeConvex<TimePoint = Self> + Add<TimeValue, Output = Self> + Sub<TimeValue, Output = Self> + AddAssign<TimeValue> + SubAssign<TimeValue> + 'static {}
impl Tp for TimeValue {}
impl Tp for Timestamp {}

/// one analysis root per time point type
#[macro_export]
macro_rules! roots {
    ($($f:ident),* $(,)?) => { $(
        pub fn ${concat($f, _value)}() { $f::<TimeValue>() }
        pub fn ${concat($f, _stamp)}() { $f::<Timestamp>() }
    )* }
}
/// an arbitrary finite point, tracked in every set created afterwards
pub fn point() -> i128 { let x: i128 = any(); assume(x > -M); assume(x < M); ghost(x, x); x }
pub fn finite() -> i128 { let x: i128 = any(); assume(x > -M); assume(x < M); x }
pub fn inside<T: TimePoint>(i: &TimeInterval<T>, x: i128) -> bool { let (l, u) = bounds(i); l <= x && x <= u }
pub fn vacant<T: TimePoint>(i: &TimeInterval<T>) -> bool { let (l, u) = bounds(i); l == M && u == -M }
/// canonically empty, or valid
pub fn sound<T: TimePoint>(i: &TimeInterval<T>) {
    let (l, u) = bounds(i);
    if l == M { check(u == -M, "an empty interval is the canonical empty interval"); check(i.is_empty(), "the empty interval says it is empty") }
    else {
        check(l >= -M, "lower bound not below -oo"); check(u <= M, "upper bound not above +oo");
        check(l <= u, "lower bound not above the upper bound"); check(u > -M, "upper bound is not -oo");
        check(!i.is_empty(), "a non-empty interval says it is not empty");
    }
}
pub fn nonempty<T: TimePoint>() -> TimeInterval<T> {
    let i: TimeInterval<T> = any();
    assume(!vacant(&i));
    i
}

/// a canonical set of at most three intervals, the number of them and the intervals (loops are then followed turn by turn)
pub fn few<T: Tp>() -> (TimeSet<T>, usize, [TimeInterval<T>; 3]) {
    unroll();
    let v: [TimeInterval<T>; 3] = [nonempty(), nonempty(), nonempty()];
    let none: bool = any();
    if none { return (TimeSet::empty(), 0, v) }
    let one: bool = any();
    if one { return (TimeSet::from_iter([v[0]]), 1, v) }
    assume(bounds(&v[0]).1 + 2 <= bounds(&v[1]).0);
    let two: bool = any();
    if two { return (TimeSet::from_iter([v[0], v[1]]), 2, v) }
    assume(bounds(&v[1]).1 + 2 <= bounds(&v[2]).0);
    (TimeSet::from_iter(v), 3, v)
}
