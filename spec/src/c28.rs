use crate::util::*;
const F: &str = "the sequence starts at its first timestamp";
const S: &str = "each timestamp is one period after (before) the previous one";
const E: &str = "the sequence ends when the next timestamp is not representable, and stays ended";
const K: &str = "the number of timestamps still to come is the one announced and counted";
const H: &str = "skipping gives the timestamp that stepping would give";
/// a finite start and a positive period such that one step back from the start is finite
fn args(back: bool) -> (Timestamp, i128, TimeValue, i128) {
    let t = finite(); let p: TimeValue = any(); let d = ticks(&p);
    assume(d > 0); assume(d < M);
    if back { assume(t + d < M) } else { assume(t - d > -M) }
    (mk(t), t, p, d)
}
/// no timestamp of the sequence is there
fn out(back: bool, x: i128) -> bool { if back { x <= -M } else { x >= M } }
fn next(back: bool, x: i128, d: i128) -> i128 { if back { x - d } else { x + d } }
fn steps<I: Iterator<Item = Timestamp>>(mut it: I, first: i128, d: i128, back: bool) {
    let mut x = first;
    loop {
        match it.next() {
            Some(t) => { check(ticks(&t) == x, if x == first { F } else { S }); check(!out(back, x), E) }
            None => { check(out(back, x), E); break }
        }
        x = next(back, x, d);
    }
    loop {
        let more: bool = any();
        if !more { break }
        check(it.next().is_none(), E)
    }
}
/// the same sequence after any number of steps
fn after<I: Iterator<Item = Timestamp>>(it: &mut I, first: i128, d: i128, back: bool) -> i128 {
    let mut x = first;
    loop {
        let more: bool = any();
        if !more { break }
        let n = it.next();
        if n.is_none() { assume(false) }
        x = next(back, x, d);
    }
    x
}
pub fn c28_forward_steps() { let (t, x, p, d) = args(false); steps(t.forward_sequence(p), x, d, false) }
pub fn c28_backward_steps() { let (t, x, p, d) = args(true); steps(t.backward_sequence(p), x, d, true) }
/// n timestamps remain from x on
fn remain(x: i128, d: i128, n: usize, back: bool) { let x = if back { -x } else { x }; let n = n as i128; if n == 0 { check(x >= M, K) } else { check(x + (n - 1) * d < M, K); check(x + n * d >= M, K) } }
fn counted<I: Iterator<Item = Timestamp>>(mut it: I, first: i128, d: i128, back: bool) {
    let x = after(&mut it, first, d, back);
    let (l, u) = it.size_hint();
    remain(x, d, l, back);
    match u { Some(u) => check(u == l, K), None => check(false, K) }
    let n = it.count();
    remain(x, d, n, back)
}
pub fn c28_forward_count() { let (t, x, p, d) = args(false); counted(t.forward_sequence(p), x, d, false) }
pub fn c28_backward_count() { let (t, x, p, d) = args(true); counted(t.backward_sequence(p), x, d, true) }
fn skipped<I: Iterator<Item = Timestamp>>(mut it: I, first: i128, d: i128, back: bool) {
    let mut x = first;
    let more: bool = any();
    if more { if it.next().is_none() { assume(false) } x = next(back, x, d) }
    let n: usize = any();
    let r = it.nth(n);
    if n as i128 >= 2 * M { check(r.is_none(), E); check(it.next().is_none(), E); return }
    let y = if back { x - n as i128 * d } else { x + n as i128 * d };
    match r {
        Some(t) => {
            check(ticks(&t) == y, H); check(!out(back, y), E);
            let z = next(back, y, d);
            match it.next() { Some(t) => { check(ticks(&t) == z, H); check(!out(back, z), E) } None => check(out(back, z), E) }
        }
        None => { check(out(back, y), E); check(it.next().is_none(), E) }
    }
}
pub fn c28_forward_nth() { let (t, x, p, d) = args(false); skipped(t.forward_sequence(p), x, d, false) }
pub fn c28_backward_nth() { let (t, x, p, d) = args(true); skipped(t.backward_sequence(p), x, d, true) }
fn final_<I: Iterator<Item = Timestamp>>(mut it: I, first: i128, d: i128, back: bool) {
    let x = after(&mut it, first, d, back);
    let n = it.size_hint().0 as i128;
    match it.last() { Some(t) => check(ticks(&t) == if back { x - (n - 1) * d } else { x + (n - 1) * d }, H), None => check(out(back, x), E) }
}
pub fn c28_forward_last() { let (t, x, p, d) = args(false); final_(t.forward_sequence(p), x, d, false) }
pub fn c28_backward_last() { let (t, x, p, d) = args(true); final_(t.backward_sequence(p), x, d, true) }
fn periods(back: bool) {
    let t = finite(); let p: TimeValue = any(); let d = ticks(&p);
    assume(d > 0); assume(d < M);
    let s: Timestamp = mk(t);
    allow_panic(if back { t > M - 1 - d || t <= d - M } else { t < 1 - M + d || t >= M - d });
    let r = if back { s.backward_periods(p).next() } else { s.forward_periods(p).next() };
    match r {
        Some(r) => {
            let r = ticks(&r);
            check(if back { t - d < r && r <= t } else { t <= r && r < t + d }, F);
            check(r % d == 0, F)
        }
        None => check(false, F)
    }
}
pub fn c28_forward_periods() { periods(false) }
pub fn c28_backward_periods() { periods(true) }
