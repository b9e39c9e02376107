use crate::util::*;
const W: &str = "the constructor gives n units exactly, or the infinity of the sign of n";
const F: &str = "the constructor gives n sub-second units rounded toward zero by less than one tick, or the infinity of the sign of n";
const X: &str = "the extension method agrees with the constructor for every integer type";
const MAX64: i128 = i64::MAX as i128;
/// n units of the given number of seconds
fn whole(n: i128, unit: i128, r: &TimeValue) { let r = ticks(r); let e = n * (unit << 30); check(r == if e >= M { M } else if e <= -M { -M } else { e }, W) }
fn fract(n: i128, per: i128, r: &TimeValue) {
    let r = ticks(r); let e = n << 30; // e / per is the exact number of ticks
    if e >= M * per { check(r == M, F) } else if e <= -M * per { check(r == -M, F) }
    else if n >= 0 { check(r * per <= e && e < (r + 1) * per, F) } else { check(r * per >= e && e > (r - 1) * per, F) }
}
pub fn c11_secs() { let n: i64 = any(); whole(n as i128, 1, &TimeValue::from_secs(n)) }
pub fn c11_mins() { let n: i64 = any(); whole(n as i128, 60, &TimeValue::from_mins(n)) }
pub fn c11_hours() { let n: i64 = any(); whole(n as i128, 3600, &TimeValue::from_hours(n)) }
pub fn c11_days() { let n: i64 = any(); whole(n as i128, 86400, &TimeValue::from_days(n)) }
pub fn c11_weeks() { let n: i64 = any(); whole(n as i128, 604800, &TimeValue::from_weeks(n)) }
pub fn c11_months() { let n: i64 = any(); whole(n as i128, 146097 * 24 * 3600 / 400 / 12, &TimeValue::from_months(n)) }
pub fn c11_years() { let n: i64 = any(); whole(n as i128, 146097 * 24 * 3600 / 400, &TimeValue::from_years(n)) }
pub fn c11_millis() { let n: i64 = any(); fract(n as i128, 1_000, &TimeValue::from_millis(n)) }
pub fn c11_micros() { let n: i64 = any(); fract(n as i128, 1_000_000, &TimeValue::from_micros(n)) }
pub fn c11_nanos() { let n: i64 = any(); fract(n as i128, 1_000_000_000, &TimeValue::from_nanos(n)) }
macro_rules! ext { ($($t:ident),*) => { $(
    pub fn ${concat(c11_ext_secs_, $t)}() { let n: $t = any(); whole(n as i128, 1, &n.secs()) }
    pub fn ${concat(c11_ext_mins_, $t)}() { let n: $t = any(); whole(n as i128, 60, &n.mins()) }
    pub fn ${concat(c11_ext_hours_, $t)}() { let n: $t = any(); whole(n as i128, 3600, &n.hours()) }
    pub fn ${concat(c11_ext_days_, $t)}() { let n: $t = any(); whole(n as i128, 86400, &n.days()) }
    pub fn ${concat(c11_ext_weeks_, $t)}() { let n: $t = any(); whole(n as i128, 604800, &n.weeks()) }
    pub fn ${concat(c11_ext_months_, $t)}() { let n: $t = any(); whole(n as i128, 146097 * 24 * 3600 / 400 / 12, &n.months()) }
    pub fn ${concat(c11_ext_years_, $t)}() { let n: $t = any(); whole(n as i128, 146097 * 24 * 3600 / 400, &n.years()) }
    pub fn ${concat(c11_ext_millis_, $t)}() { let n: $t = any(); fract(n as i128, 1_000, &n.millis()) }
    pub fn ${concat(c11_ext_micros_, $t)}() { let n: $t = any(); fract(n as i128, 1_000_000, &n.micros()) }
    pub fn ${concat(c11_ext_nanos_, $t)}() { let n: $t = any(); fract(n as i128, 1_000_000_000, &n.nanos()) }
    pub fn ${concat(c11_ext_ticks_, $t)}() { let n: $t = any(); let r = ticks(&n.ticks()); let n = n as i128; check(r == if n >= M { M } else if n <= -M { -M } else { n }, X) }
)* } }
ext!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
/// 128-bit factors: in the range of i64, and beyond it
macro_rules! big { ($($t:ident),*) => { $(
    pub fn ${concat(c11_big_, $t)}() {
        let n: $t = any(); let m = n as i128;
        if m > MAX64 || m < -MAX64 {
            let w = if m > 0 { M } else { -M };
            check(ticks(&n.secs()) == w && ticks(&n.mins()) == w && ticks(&n.hours()) == w && ticks(&n.days()) == w && ticks(&n.weeks()) == w && ticks(&n.ticks()) == w, W);
        } else { whole(m, 1, &n.secs()); whole(m, 3600, &n.hours()); check(ticks(&n.ticks()) == if m >= M { M } else { m }, X) }
    }
)* } }
big!(i128);
pub fn c11_big_u128() { let n: u128 = any(); if n > i64::MAX as u128 { check(ticks(&n.secs()) == M && ticks(&n.mins()) == M && ticks(&n.hours()) == M && ticks(&n.days()) == M && ticks(&n.weeks()) == M && ticks(&n.ticks()) == M, W) } else { let m = n as i128; whole(m, 1, &n.secs()); whole(m, 3600, &n.hours()); check(ticks(&n.ticks()) == if m >= M { M } else { m }, X) } }
