use crate::util::*;
const A: &str = "the sum is exact, or the infinity on its side";
const I: &str = "an infinite operand gives the same infinity";
const N: &str = "the negation is exact";
const P: &str = "the three predicates tell infinities and finite values apart";
fn clamp(x: i128) -> i128 { if x >= M { M } else if x <= -M { -M } else { x } }
/// r is the sum of x and y; opposite infinities are rejected
fn sum(x: i128, y: i128, r: i128) {
    if x == M || x == -M { check(r == x, I) } else if y == M || y == -M { check(r == y, I) } else { check(r == clamp(x + y), A) }
}
fn opposite(x: i128, y: i128) -> bool { (x == M && y == -M) || (x == -M && y == M) }
fn v() -> TimeValue { any() }
fn s() -> Timestamp { any() }
pub fn c10_add() { let (a, b) = (v(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, y)); sum(x, y, ticks(&(a + b))) }
pub fn c10_sub() { let (a, b) = (v(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, -y)); sum(x, -y, ticks(&(a - b))) }
pub fn c10_add_assign() { let (mut a, b) = (v(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, y)); a += b; sum(x, y, ticks(&a)) }
pub fn c10_sub_assign() { let (mut a, b) = (v(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, -y)); a -= b; sum(x, -y, ticks(&a)) }
pub fn c10_neg() { let a = v(); let x = ticks(&a); check(ticks(&-a) == -x, N) }
pub fn c10_stamp_neg() { let a = s(); let x = ticks(&a); check(ticks(&-a) == -x, N) }
pub fn c10_stamp_add() { let (a, b) = (s(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, y)); sum(x, y, ticks(&(a + b))) }
pub fn c10_stamp_sub() { let (a, b) = (s(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, -y)); sum(x, -y, ticks(&(a - b))) }
pub fn c10_stamp_add_assign() { let (mut a, b) = (s(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, y)); a += b; sum(x, y, ticks(&a)) }
pub fn c10_stamp_sub_assign() { let (mut a, b) = (s(), v()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, -y)); a -= b; sum(x, -y, ticks(&a)) }
pub fn c10_stamp_distance() { let (a, b) = (s(), s()); let (x, y) = (ticks(&a), ticks(&b)); allow_panic(opposite(x, -y)); sum(x, -y, ticks(&(a - b))) }
pub fn c10_from_ticks() { let t: i64 = any(); let r = ticks(&TimeValue::from_ticks(t)); let t = t as i128; check(r == if t < -M { -M } else { t }, "from_ticks keeps the value, the lowest integer becomes -oo") }
pub fn c10_as_ticks() { let a = v(); check(a.as_ticks() as i128 == ticks(&a), "as_ticks gives the ticks") }
pub fn c10_sum_one() { let a = v(); let r: TimeValue = Some(a).into_iter().sum(); check(ticks(&r) == ticks(&a), A) }
pub fn c10_sum_none() { let r: TimeValue = std::iter::empty::<TimeValue>().sum(); check(ticks(&r) == 0, A) }
pub fn c10_signs() { let a = v(); let x = ticks(&a); check(a.is_strictly_positive() == (x > 0) && a.is_strictly_negative() == (x < 0) && a.is_zero() == (x == 0), "the sign predicates describe the value") }
pub fn c10_default() { check(ticks(&TimeValue::default()) == 0, "the default duration is zero") }
pub fn c10_order() { let (a, b) = (v(), v()); let (x, y) = (ticks(&a), ticks(&b)); check((a < b) == (x < y) && (a <= b) == (x <= y) && (a == b) == (x == y), "time values are ordered as their ticks"); check(ticks(&a.max(b)) == if x > y { x } else { y }, "time values are ordered as their ticks"); check(ticks(&a.min(b)) == if x < y { x } else { y }, "time values are ordered as their ticks") }
pub fn c10_predicates<T: Tp>() {
    let a: T = any(); let x = ticks(&a);
    check(a.is_future_infinite() == (x == M), P); check(a.is_past_infinite() == (x == -M), P); check(a.is_finite() == (x != M && x != -M), P);
    check(ticks(&T::INFINITE) == M, P); check(ticks(&-T::INFINITE) == -M, P);
    let inf = x == M || x == -M;
    check(ticks(&a.just_after()) == if inf { x } else { x + 1 }, "just after is one tick later, infinite points do not move");
    check(ticks(&a.just_before()) == if inf { x } else { x - 1 }, "just before is one tick earlier, infinite points do not move");
}
crate::roots!(c10_predicates);
