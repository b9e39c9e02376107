use crate::graphs::*;
use crate::rt::mk_scheduler;
const D: &str = "the duration of a window is the distance of its bounds";
const E: &str = "the duration of the empty window and of a point is zero";
const I: &str = "the duration of an unbounded window is infinite";
const S: &str = "the whole seconds are the greatest number of seconds not above the value";
const F: &str = "the fractional part is within one nanosecond of the distance to the whole seconds, and below one second";
const U: &str = "a coarser fractional part is the whole number of units in the finer one";
const G: &str = "the sign predicates tell the sign";
const O: &str = "a timestamp is its duration since the origin";
const L: &str = "the latest beginning is the least upper bound of the schedule";
const H: &str = "the earliest ending is the greatest lower bound of the schedule";
pub fn c32_duration() {
    let i: TimeSlot = any(); let (l, u) = bounds(&i);
    let d = ticks(&i.duration());
    if l >= u { check(d == 0, E) }
    else if l == -M || u == M { check(d == M, I) }
    else if u - l < M { check(d == u - l, D) } else { check(d == M, I) }
}
pub fn c32_secs() { let t: TimeValue = any(); let x = ticks(&t); assume(x > -M); assume(x < M); let s = t.as_secs() as i128; check(s * (1 << 30) <= x && x < (s + 1) * (1 << 30), S) }
pub fn c32_nanos() {
    let t: TimeValue = any(); let x = ticks(&t); assume(x > -M); assume(x < M);
    let n = t.subsec_nanos() as i128;
    let f = x - (x >> 30) * (1 << 30);
    check(n >= 0 && n < 1_000_000_000, F);
    let d = n * (1 << 30) - f * 1_000_000_000;
    check(d < (1 << 30) && d > -(1 << 30), F)
}
pub fn c32_millis() { let t: TimeValue = any(); let r = t.subsec_millis() as i128; let n = t.subsec_nanos() as i128; check(r * 1_000_000 <= n && n < (r + 1) * 1_000_000, U) }
pub fn c32_micros() { let t: TimeValue = any(); let r = t.subsec_micros() as i128; let n = t.subsec_nanos() as i128; check(r * 1_000 <= n && n < (r + 1) * 1_000, U) }
pub fn c32_signs() {
    let t: TimeValue = any(); let x = ticks(&t);
    check(t.is_zero() == (x == 0) && t.is_positive() == (x >= 0) && t.is_negative() == (x <= 0) && t.is_strictly_positive() == (x > 0) && t.is_strictly_negative() == (x < 0), G)
}
pub fn c32_origin() { let t: TimeValue = any(); let s = Timestamp::from_origin(t); check(ticks(&s) == ticks(&t), O); check(ticks(&s.since_origin()) == ticks(&t), O) }
fn span<const P: usize>() {
    let (g, _) = loose::<P>();
    let mut sets = Vec::new();
    let mut b = [(0i128, 0i128); P];
    for k in 0..P {
        let (s, l, u) = { let s: TimeSlot = nonempty(); let (l, u) = bounds(&s); (s, l, u) };
        b[k] = (l, u);
        let two: bool = any();
        if k == 0 && two { let (z, y) = { let z: TimeSlot = nonempty(); let (m, v) = bounds(&z); assume(u + 2 <= m); (z, v) }; b[k].1 = y; sets.push(TimeSlots::from_iter([s, z])) } else { sets.push(TimeSlots::from(s)) }
    }
    let s: TimeScheduler<'_> = mk_scheduler(&g, sets);
    let (r, q) = (ticks(&s.latest_beginning()), ticks(&s.earliest_ending()));
    let (mut least, mut greatest) = (false, false);
    for k in 0..P { check(r <= b[k].1, L); check(q >= b[k].0, H); if r == b[k].1 { least = true } if q == b[k].0 { greatest = true } }
    check(least, L); check(greatest, H)
}
pub fn c32_span_1() { span::<1>() }
pub fn c32_span_2() { span::<2>() }
pub fn c32_span_3() { span::<3>() }
