use crate::util::*;
fn built<T: Tp>(r: &TimeInterval<T>, x: i128, l: i128, u: i128) {
    sound(r);
    check(inside(r, x) == (l <= x && x <= u), "the interval holds exactly the points between the requested bounds");
}
pub fn c01_new<T: Tp>() {
    let x = point(); let a: T = any(); let b: T = any();
    built(&TimeInterval::new(a, b), x, ticks(&a), ticks(&b));
}
pub fn c01_pair<T: Tp>() {
    let x = point(); let a: T = any(); let b: T = any();
    built(&TimeInterval::from((a, b)), x, ticks(&a), ticks(&b));
}
pub fn c01_singleton<T: Tp>() { let x = point(); let a: T = any(); built(&TimeInterval::singleton(a), x, ticks(&a), ticks(&a)); }
pub fn c01_from_point<T: Tp>() { let x = point(); let a: T = any(); built(&TimeInterval::from(a), x, ticks(&a), ticks(&a)); }
pub fn c01_after<T: Tp>() { let x = point(); let a: T = any(); built(&TimeInterval::after(a), x, ticks(&a), M); }
pub fn c01_before<T: Tp>() { let x = point(); let a: T = any(); built(&TimeInterval::before(a), x, -M, ticks(&a)); }
pub fn c01_constants<T: Tp>() {
    let x = point();
    built::<T>(&TimeInterval::all(), x, -M, M);
    built::<T>(&TimeInterval::from(..), x, -M, M);
    let e: TimeInterval<T> = TimeInterval::empty(); sound(&e); check(!inside(&e, x), "the empty interval holds no point");
    let d: TimeInterval<T> = TimeInterval::default(); sound(&d); check(!inside(&d, x), "the default interval is empty");
}
pub fn c01_range<T: Tp>() { let x = point(); let a: T = any(); let b: T = any();
    let (l, u) = (ticks(&a), ticks(&b));
    let r: TimeInterval<T> = (a..b).into();
    sound(&r); check(inside(&r, x) == (l <= x && x < u), "a..b holds the points from a up to but excluding b");
}
pub fn c01_range_inclusive<T: Tp>() { let x = point(); let a: T = any(); let b: T = any(); built(&(a..=b).into(), x, ticks(&a), ticks(&b)); }
pub fn c01_range_from<T: Tp>() { let x = point(); let a: T = any(); built(&(a..).into(), x, ticks(&a), M); }
pub fn c01_range_to_inclusive<T: Tp>() { let x = point(); let a: T = any(); built(&(..=a).into(), x, -M, ticks(&a)); }
pub fn c01_range_to<T: Tp>() { let x = point(); let a: T = any(); let u = ticks(&a);
    let r: TimeInterval<T> = (..a).into();
    sound(&r); check(inside(&r, x) == (x < u), "..b holds the points before b");
}
pub fn c01_neg<T: Tp>() { let x = point(); let a: TimeInterval<T> = any(); let r = -a; sound(&r); check(inside(&r, x) == inside(&a, -x), "the negated interval holds exactly the opposite points"); }
pub fn c01_truncate<T: Tp>() {
    let x = point(); let mut a: TimeInterval<T> = any(); let t: T = any(); let old = inside(&a, x);
    a.truncate_before(t); sound(&a); check(inside(&a, x) == (old && x >= ticks(&t)), "truncate_before keeps the points not before t");
}
pub fn c01_truncate_after<T: Tp>() {
    let x = point(); let mut a: TimeInterval<T> = any(); let t: T = any(); let old = inside(&a, x);
    a.truncate_after(t); sound(&a); check(inside(&a, x) == (old && x <= ticks(&t)), "truncate_after keeps the points not after t");
}
/// a bound that saturates
fn far(b: i128) -> i128 { if b >= M { M } else if b <= -M { -M } else { b } }
pub fn c01_centered<T: Tp>() {
    let x = point(); let o: T = any(); let d: TimeValue = any();
    let (c, r) = (ticks(&o), ticks(&d));
    // oo - oo has no meaning
    assume(!((c == M || c == -M) && (r == M || r == -M)));
    match TimeInterval::centered(o, d) {
        Some(i) => {
            check(r >= 0, "a negative radius is refused");
            if r == M { built(&i, x, -M, M) } else if c == M || c == -M { built(&i, x, c, c) } else { built(&i, x, far(c - r), far(c + r)) }
        }
        None => check(r < 0, "a radius that is not negative is accepted"),
    }
}
pub fn c01_enlarge<T: Tp>() {
    let x = point(); let a: TimeInterval<T> = any(); let d: TimeValue = mk(finite());
    let (l, u) = bounds(&a); let r = ticks(&d);
    let (el, eu) = (if l == -M || l == M { l } else { far(l - r) }, if u == M || u == -M { u } else { far(u + r) });
    match a.enlarge(d) {
        Some(i) => built(&i, x, el, eu),
        None => check(!(el <= x && x <= eu), "an enlargement is refused only when it has no point"),
    }
}
pub fn c01_new_unchecked<T: Tp>() {
    let x = point(); let a: T = any(); let b: T = any();
    assume(ticks(&a) <= ticks(&b)); assume(ticks(&a) < M); assume(ticks(&b) > -M);
    built(&unsafe { TimeInterval::new_unchecked(a, b) }, x, ticks(&a), ticks(&b));
}
crate::roots!(c01_new, c01_pair, c01_singleton, c01_from_point, c01_after, c01_before, c01_constants, c01_range, c01_range_inclusive, c01_range_from, c01_range_to_inclusive, c01_range_to, c01_neg, c01_truncate, c01_truncate_after, c01_centered, c01_enlarge, c01_new_unchecked);
pub fn c01_constraint_range() { use chronologic::graph::*; let x = point(); let a: TimeValue = any(); let b: TimeValue = any(); let k: ((Instant, Instant), std::ops::RangeInclusive<TimeValue>) = ((any(), any()), a..=b);
    built(&TimeSpan::from(k), x, ticks(&a), ticks(&b)); }
pub fn c01_constraint_from() { use chronologic::graph::*; let x = point(); let a: TimeValue = any(); let k: ((Instant, Instant), std::ops::RangeFrom<TimeValue>) = ((any(), any()), a..); built(&TimeSpan::from(k), x, ticks(&a), M); }
pub fn c01_constraint_span() { use chronologic::graph::*; let x = point(); let s: TimeSpan = any(); let (l, u) = bounds(&s); let r = TimeSpan::from(((any::<u32>(), any::<u32>()), s)); built(&r, x, l, u); }
