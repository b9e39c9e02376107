use crate::util::*;
const F: &str = "floor is the greatest multiple of the period not above the value";
const C: &str = "ceil is the least multiple of the period not below the value";
const I: &str = "rounding leaves an infinite value unchanged";
const T: &str = "truncation to a unit rounds toward zero to a multiple of the unit";
fn val() -> TimeValue { any() }
fn period() -> TimeValue { let p: TimeValue = any(); let q = ticks(&p); assume(q > 0); assume(q < M); p }
/// r is a multiple of p
fn multiple(r: i128, p: i128) -> bool { r % p == 0 }
// a multiple may be out of range: it saturates then
pub fn c12_floor() { let (t, p) = (val(), period()); let (x, q) = (ticks(&t), ticks(&p)); assume(x > -M); assume(x < M); assume(x - q > -M); let r = ticks(&t.floor(p)); check(r <= x && x < r + q, F); check(multiple(r, q), F) }
pub fn c12_ceil() { let (t, p) = (val(), period()); let (x, q) = (ticks(&t), ticks(&p)); assume(x > -M); assume(x < M); assume(x + q < M); let r = ticks(&t.ceil(p)); check(r >= x && x > r - q, C); check(multiple(r, q), C) }
pub fn c12_floor_low() { let (t, p) = (val(), period()); let (x, q) = (ticks(&t), ticks(&p)); assume(x > -M); assume(x - q <= -M); assume(x < 0); let r = ticks(&t.floor(p)); check(r <= x, F) }
pub fn c12_ceil_high() { let (t, p) = (val(), period()); let (x, q) = (ticks(&t), ticks(&p)); assume(x < M); assume(x + q >= M); assume(x > 0); let r = ticks(&t.ceil(p)); check(r >= x, C) }
pub fn c12_floor_infinite() { let p = period(); check(ticks(&TimeValue::INFINITE.floor(p)) == M, I); check(ticks(&(-TimeValue::INFINITE).floor(p)) == -M, I) }
pub fn c12_ceil_infinite() { let p = period(); check(ticks(&TimeValue::INFINITE.ceil(p)) == M, I); check(ticks(&(-TimeValue::INFINITE).ceil(p)) == -M, I) }
/// truncation of any duration to a unit of q ticks
fn trunc(x: i128, q: i128, r: &TimeValue) { let r = ticks(r); if x == M || x == -M { check(r == x, I) } else if x >= 0 { check(r <= x && x < r + q, T); check(r % q == 0, T) } else { check(r >= x && x > r - q, T); check(r % q == 0, T) } }
const S: i128 = 1 << 30;
pub fn c12_trunc_secs() { let t = val(); trunc(ticks(&t), S, &t.secs()) }
pub fn c12_trunc_mins() { let t = val(); trunc(ticks(&t), 60 * S, &t.mins()) }
pub fn c12_trunc_hours() { let t = val(); trunc(ticks(&t), 3600 * S, &t.hours()) }
pub fn c12_trunc_days() { let t = val(); trunc(ticks(&t), 86400 * S, &t.days()) }
pub fn c12_trunc_weeks() { let t = val(); trunc(ticks(&t), 604800 * S, &t.weeks()) }
pub fn c12_trunc_months() { let t = val(); trunc(ticks(&t), 146097 * 24 * 3600 / 400 / 12 * S, &t.months()) }
pub fn c12_trunc_years() { let t = val(); trunc(ticks(&t), 146097 * 24 * 3600 / 400 * S, &t.years()) }
pub fn c12_trunc_millis() { let t = val(); trunc(ticks(&t), S / 1000, &t.millis()) }
pub fn c12_trunc_micros() { let t = val(); trunc(ticks(&t), S / 1000000, &t.micros()) }
pub fn c12_trunc_nanos() { let t = val(); trunc(ticks(&t), S / 1000000000, &t.nanos()) }
pub fn c12_trunc_ticks() { let t = val(); check(ticks(&t.ticks()) == ticks(&t), T) }
pub fn c12_stamp_floor() { let (t, p): (Timestamp, TimeValue) = (any(), period()); let (x, q) = (ticks(&t), ticks(&p)); assume(x > -M); assume(x < M); assume(x - q > -M); let r = ticks(&t.floor(p)); check(r <= x && x < r + q, F); check(multiple(r, q), F) }
pub fn c12_stamp_ceil() { let (t, p): (Timestamp, TimeValue) = (any(), period()); let (x, q) = (ticks(&t), ticks(&p)); assume(x > -M); assume(x < M); assume(x + q < M); let r = ticks(&t.ceil(p)); check(r >= x && x > r - q, C); check(multiple(r, q), C) }
pub fn c12_stamp_infinite() { let p = period(); check(ticks(&Timestamp::INFINITE.floor(p)) == M && ticks(&(-Timestamp::INFINITE).floor(p)) == -M && ticks(&Timestamp::INFINITE.ceil(p)) == M && ticks(&(-Timestamp::INFINITE).ceil(p)) == -M, I) }
