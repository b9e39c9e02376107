use crate::util::*;
use std::time::Duration as Std;
use chrono::Duration as Chrono;
const G: i128 = 1_000_000_000;
const T: i128 = 1 << 30;
const W: &str = "the time value is within one tick of the duration";
const I: &str = "only a duration that does not fit becomes infinite, with its sign";
const N: &str = "the duration is within one nanosecond of the time value";
/// `s` seconds and `n` nanoseconds, moderate, became `r` ticks
fn within(s: i128, n: i128, r: i128) {
    let e = s * T * G + n * T;
    if r == M { check(e > (M - 1) * G, I) }
    else if r == -M { check(e < (1 - M) * G, I) }
    else { check(r * G - e < G && e - r * G < G, W) }
}
pub fn c27_from_std() {
    let s: u64 = any(); let n: u32 = any(); assume((n as i128) < G);
    let r = ticks(&TimeValue::from(Std::new(s, n)));
    let s = s as i128;
    if s >= 1 << 34 { check(r == M, I) } else { within(s, n as i128, r) }
}
pub fn c27_to_std() {
    let t: TimeValue = any(); let x = ticks(&t); assume(x >= 0); assume(x < M);
    let d: Std = t.into();
    let v = (d.as_secs() as i128) * G * T + (d.subsec_nanos() as i128) * T;
    check(v - x * G < T && x * G - v < T, N)
}
pub fn c27_std_sign() {
    let t: TimeValue = any(); let x = ticks(&t); assume(x < M);
    allow_panic(x < 0);
    let d: Std = t.into();
    check(x >= 0, "a negative time value has no standard duration");
    check(x > 0 || d.is_zero(), N)
}
/// any chrono duration: whole seconds and the nanoseconds above them
fn chrono() -> (Chrono, i128, i128) {
    let s: i64 = any(); let n: u32 = any(); assume((n as i128) < G);
    let d = match Chrono::new(s, n) { Some(d) => d, None => { assume(false); loop {} } };
    (d, s as i128, n as i128)
}
pub fn c27_from_chrono() {
    let (d, s, n) = chrono();
    let r = ticks(&TimeValue::from(d));
    if s >= 1 << 34 { check(r == M, I) } else if s <= -(1 << 34) { check(r == -M, I) } else { within(s, n, r) }
}
fn near(d: Chrono, x: i128) {
    let (s, n) = (d.num_seconds() as i128, d.subsec_nanos() as i128);
    let v = s * G * T + n * T;
    check(v - x * G < T && x * G - v < T, N)
}
pub fn c27_to_chrono() { let t: TimeValue = any(); let x = ticks(&t); assume(x > -M); assume(x < M); near(t.into(), x) }
pub fn c27_to_duration() { let t: TimeValue = any(); let x = ticks(&t); assume(x > -M); assume(x < M); near(t.to_duration(), x) }
const D: &str = "the date is within one nanosecond of the timestamp";
const B: &str = "a timestamp is within one tick of the date it comes from, or infinite when the date is out of reach";
const K: &str = "dates keep the order of timestamps";
const Z: &str = "a timestamp comes back from its date within two ticks";
fn stamp() -> (Timestamp, i128) { let t: Timestamp = any(); let x = ticks(&t); assume(x < M); assume(x > -M); (t, x) }
fn moment(d: &chrono::DateTime<chrono::Utc>) -> (i128, i128) { (d.timestamp() as i128, d.timestamp_subsec_nanos() as i128) }
pub fn c27_date() {
    let (t, x) = stamp();
    let (s, n) = moment(&t.to_datetime());
    check(n >= 0 && n < G, D);
    let v = s * G * T + n * T;
    check(v - x * G < T && x * G - v < T, D)
}
pub fn c27_naive_date() {
    let (t, x) = stamp();
    let d: chrono::NaiveDateTime = t.into();
    let (s, n) = moment(&d.and_utc());
    check(n >= 0 && n < G, D);
    let v = s * G * T + n * T;
    check(v - x * G < T && x * G - v < T, D)
}
pub fn c27_date_order() {
    let ((t, x), (u, y)) = (stamp(), stamp()); assume(x <= y);
    let ((s, n), (r, m)) = (moment(&t.to_datetime()), moment(&u.to_datetime()));
    check(s < r || s == r && n <= m, K)
}
/// any date whose nanoseconds since 1970 fit in 64 bits
fn date() -> (i64, u32) { let s: i64 = any(); let n: u32 = any(); assume((n as i128) < G); assume(s < 9_223_372_036); assume(s > -9_223_372_036); (s, n) }
pub fn c27_from_date() {
    let (s, n) = date();
    let d: chrono::DateTime<chrono::Utc> = rt::mk_date(s, n);
    within_of(s, n, ticks(&Timestamp::from(d)))
}
pub fn c27_from_naive_date() {
    let (s, n) = date();
    let d: chrono::NaiveDateTime = rt::mk_date(s, n);
    within_of(s, n, ticks(&Timestamp::from(d)))
}
fn within_of(s: i64, n: u32, r: i128) {
    let e = s as i128 * T * G + n as i128 * T;
    if r == M { check(e > (M - 1) * G, B) }
    else if r == -M { check(e < (1 - M) * G, B) }
    else { check(r * G - e < G && e - r * G < G, B) }
}
pub fn c27_date_back() {
    let (t, x) = stamp();
    let y = ticks(&Timestamp::from(t.to_datetime()));
    check(y - x <= 2 && x - y <= 2, Z)
}
