use crate::util::*;
const M1: &str = "the product is exact, or the infinity on its side";
const D1: &str = "the quotient is exact, truncated toward zero";
const I1: &str = "scaling an infinite duration by a nonzero integer keeps it infinite, with the sign of the product";
const B: &str = "scaling an interval scales its bounds and swaps them for a negative factor";
const A: &str = "the assigning operator agrees with the plain one";
const R: &str = "the operator agrees whichever side the factor is on";
const MAX64: i128 = i64::MAX as i128;
fn clamp(x: i128) -> i128 { if x >= M { M } else if x <= -M { -M } else { x } }
/// r is t * n; n is within the range of 64 bits
fn product(x: i128, n: i128, r: i128) {
    if x == M || x == -M { if n == 0 { check(r == 0 || r == x, M1) } else { check(r == if (x > 0) == (n > 0) { M } else { -M }, I1) } }
    else { check(r == clamp(x * n), M1) }
}
fn quotient(x: i128, n: i128, r: i128) {
    if x == M || x == -M { check(r == if (x > 0) == (n > 0) { M } else { -M }, I1) }
    else {
        // q truncated toward zero: |n*q| <= |x| < |n*q| + |n| and q carries the sign of the quotient
        let d = if n < 0 { -n } else { n }; let q = if n < 0 { -r } else { r };
        if x >= 0 { check(d * q <= x && x < d * q + d, D1) } else { check(d * q >= x && x > d * q - d, D1) }
    }
}
macro_rules! scale { ($($t:ident),*) => { $(
    pub fn ${concat(c15_mul_, $t)}() { let t: TimeValue = any(); let n: $t = any(); product(ticks(&t), n as i128, ticks(&(t * n))) }
    pub fn ${concat(c15_rmul_, $t)}() { let t: TimeValue = any(); let n: $t = any(); product(ticks(&t), n as i128, ticks(&(n * t))) }
    pub fn ${concat(c15_div_, $t)}() { let t: TimeValue = any(); let n: $t = any(); assume(n != 0); quotient(ticks(&t), n as i128, ticks(&(t / n))) }
    pub fn ${concat(c15_mul_assign_, $t)}() { let t: TimeValue = any(); let n: $t = any(); let x = ticks(&t); let mut r = t; r *= n; product(x, n as i128, ticks(&r)) }
    pub fn ${concat(c15_div_assign_, $t)}() { let t: TimeValue = any(); let n: $t = any(); assume(n != 0); let x = ticks(&t); let mut r = t; r /= n; quotient(x, n as i128, ticks(&r)) }
)* } }
scale!(i8, u8, i16, u16, i32, u32, i64, isize);
/// factors beyond 64 bits: only the sign and the zero matter
macro_rules! huge { ($($t:ident),*) => { $(
    pub fn ${concat(c15_mul_, $t)}() { let t: TimeValue = any(); let n: $t = any(); let x = ticks(&t); let r = ticks(&(t * n));
        if n > MAX64 as $t { check(r == if x == 0 { 0 } else if x > 0 { M } else { -M }, M1) } else { product(x, n as i128, r) } }
    pub fn ${concat(c15_div_, $t)}() { let t: TimeValue = any(); let n: $t = any(); assume(n != 0); let x = ticks(&t); let r = ticks(&(t / n));
        if n > MAX64 as $t { if x == M || x == -M { check(r == x, I1) } else { check(r == 0, D1) } } else { quotient(x, n as i128, r) } }
)* } }
huge!(u64, usize, u128);
pub fn c15_mul_i128() { let t: TimeValue = any(); let n: i128 = any(); let x = ticks(&t); let r = ticks(&(t * n));
    if n > MAX64 { check(r == if x == 0 { 0 } else if x > 0 { M } else { -M }, M1) } else if n < -MAX64 { check(r == if x == 0 { 0 } else if x > 0 { -M } else { M }, M1) } else { product(x, n, r) } }
pub fn c15_div_i128() { let t: TimeValue = any(); let n: i128 = any(); assume(n != 0); let x = ticks(&t); let r = ticks(&(t / n));
    if n > MAX64 { if x == M || x == -M { check(r == x, I1) } else { check(r == 0, D1) } } else if n < -MAX64 { if x == M || x == -M { check(r == -x, I1) } else { check(r == 0, D1) } } else { quotient(x, n, r) } }
fn span() -> TimeSpan { nonempty() }
/// both bounds scaled beyond the same infinity: nothing representable remains
fn lost(l: i128, u: i128, n: i128) -> bool { let (a, b) = if n < 0 { (u, l) } else { (l, u) }; n != 0 && (a * n >= M || b * n <= -M) }
fn scaled(l: i128, u: i128, n: i128, i: &TimeSpan) {
    let (a, b) = bounds(i);
    sound(i);
    if n >= 0 { product(l, n, a); product(u, n, b) } else { product(u, n, a); product(l, n, b) }
}
fn divided(l: i128, u: i128, n: i128, i: &TimeSpan) {
    let (a, b) = bounds(i);
    sound(i);
    if n > 0 { quotient(l, n, a); quotient(u, n, b) } else { quotient(u, n, a); quotient(l, n, b) }
}
macro_rules! spans { ($($t:ident),*) => { $(
    pub fn ${concat(c15_span_mul_, $t)}() { let s = span(); let (l, u) = bounds(&s); let n: $t = any(); assume(n as i128 <= MAX64); assume(n as i128 >= -MAX64); allow_panic(lost(l, u, n as i128)); scaled(l, u, n as i128, &(s * n)) }
    pub fn ${concat(c15_span_rmul_, $t)}() { let s = span(); let (l, u) = bounds(&s); let n: $t = any(); assume(n as i128 <= MAX64); assume(n as i128 >= -MAX64); allow_panic(lost(l, u, n as i128)); scaled(l, u, n as i128, &(n * s)) }
    pub fn ${concat(c15_span_mul_assign_, $t)}() { let s = span(); let (l, u) = bounds(&s); let n: $t = any(); assume(n as i128 <= MAX64); assume(n as i128 >= -MAX64); allow_panic(lost(l, u, n as i128)); let mut r = s; r *= n; scaled(l, u, n as i128, &r) }
    pub fn ${concat(c15_span_div_, $t)}() { let s = span(); let (l, u) = bounds(&s); let n: $t = any(); assume(n as i128 <= MAX64); assume(n as i128 >= -MAX64); assume(n != 0); let r = s / n; divided(l, u, n as i128, &r) }
    pub fn ${concat(c15_span_div_assign_, $t)}() { let s = span(); let (l, u) = bounds(&s); let n: $t = any(); assume(n as i128 <= MAX64); assume(n as i128 >= -MAX64); assume(n != 0); let mut r = s; r /= n; divided(l, u, n as i128, &r) }
)* } }
spans!(i8, u8, i16, u16, i32, u32, i64, isize, u64, usize, u128, i128);
const C: &str = "the scaled set is a sorted list of non-empty intervals separated by at least one tick";
const S: &str = "scaling a set scales each of its intervals";
/// n > 0 (neg: the factor is -n); x lies in the scaled set just when it lies in a scaled interval
fn set(n: i128, neg: bool, f: impl FnOnce(TimeSpans) -> TimeSpans) {
    let x = finite(); ghost(x, x);
    let (s, c, v) = few::<TimeValue>();
    let z = if neg { -x } else { x };
    let mut w = false; let mut p = false;
    for (k, i) in v.into_iter().enumerate() { if k == c { break } let (l, u) = bounds(&i); if lost(l, u, n) { p = true } else if (l == -M || l * n <= z) && (u == M || z <= u * n) { w = true } }
    allow_panic(p);
    let r = f(s);
    check(is_canon(&r), C);
    check((hits(&r, 0) != 0) == w, S)
}
/// x lies in the divided set just when it lies between the truncated quotients of the bounds of an interval
fn between(i: &TimeSpan, n: i128, x: i128) -> bool { let (l, u) = bounds(i); let (a, b) = if n > 0 { (l, u) } else { (u, l) }; (a == M || a == -M || a / n <= x) && (b == M || b == -M || x <= b / n) }
fn quot(n: i128, f: impl FnOnce(TimeSpans) -> TimeSpans) {
    let x = finite(); ghost(x, x);
    unroll();
    let (a, b) = (span(), span());
    assume(bounds(&a).1 + 2 <= bounds(&b).0);
    let r = f(TimeSpans::from_iter([a, b]));
    check(is_canon(&r), C);
    let h = hits(&r, 0) != 0;
    check(h == (between(&a, n, x) || between(&b, n, x)), S)
}
fn quot3(n: i128, f: impl FnOnce(TimeSpans) -> TimeSpans) {
    let x = finite(); ghost(x, x);
    let (s, c, v) = few::<TimeValue>();
    let r = f(s);
    check(is_canon(&r), C);
    let h = hits(&r, 0) != 0;
    check(h == (c > 0 && between(&v[0], n, x) || c > 1 && between(&v[1], n, x) || c > 2 && between(&v[2], n, x)), S)
}
pub fn c15_three_div() { let n: i64 = any(); assume(n > 0); quot3(n as i128, |s| s / n) }
pub fn c15_three_div_negative() { let n: i64 = any(); assume(n < 0); assume(n as i128 >= -MAX64); quot3(n as i128, |s| s / n) }
macro_rules! sets { ($($t:ident),*) => { $(
    pub fn ${concat(c15_set_mul_, $t)}() { let n: $t = any(); assume(n as i128 <= MAX64); assume(n > 0); set(n as i128, false, |s| s * n) }
    pub fn ${concat(c15_set_rmul_, $t)}() { let n: $t = any(); assume(n as i128 <= MAX64); assume(n > 0); set(n as i128, false, |s| n * s) }
    pub fn ${concat(c15_set_mul_assign_, $t)}() { let n: $t = any(); assume(n as i128 <= MAX64); assume(n > 0); set(n as i128, false, |mut s| { s *= n; s }) }
    pub fn ${concat(c15_set_div_, $t)}() { let n: $t = any(); assume(n as i128 <= MAX64); assume(n > 0); quot(n as i128, |s| s / n) }
    pub fn ${concat(c15_set_div_assign_, $t)}() { let n: $t = any(); assume(n as i128 <= MAX64); assume(n > 0); quot(n as i128, |mut s| { s /= n; s }) }
    pub fn ${concat(c15_set_mul_zero_, $t)}() { let x = point(); let s: TimeSpans = any(); let e = s.is_empty(); let n: $t = any(); assume(n == 0); let r = s * n; check(is_canon(&r), C); check((hits(&r, 0) != 0) == (x == 0 && !e), S) }
    pub fn ${concat(c15_set_mul_assign_zero_, $t)}() { let x = point(); let s: TimeSpans = any(); let e = s.is_empty(); let n: $t = any(); assume(n == 0); let mut r = s; r *= n; check(is_canon(&r), C); check((hits(&r, 0) != 0) == (x == 0 && !e), S) }
)* } }
sets!(i8, u8, i16, u16, i32, u32, i64, isize, u64, usize, u128, i128);
macro_rules! negative_sets { ($($t:ident),*) => { $(
    pub fn ${concat(c15_set_mul_neg_, $t)}() { let n: $t = any(); assume(n as i128 >= -MAX64); assume(n < 0); set(-(n as i128), true, |s| s * n) }
    pub fn ${concat(c15_set_mul_assign_neg_, $t)}() { let n: $t = any(); assume(n as i128 >= -MAX64); assume(n < 0); set(-(n as i128), true, |mut s| { s *= n; s }) }
    pub fn ${concat(c15_set_div_neg_, $t)}() { let n: $t = any(); assume(n as i128 >= -MAX64); assume(n < 0); quot(n as i128, |s| s / n) }
    pub fn ${concat(c15_set_div_assign_neg_, $t)}() { let n: $t = any(); assume(n as i128 >= -MAX64); assume(n < 0); quot(n as i128, |mut s| { s /= n; s }) }
)* } }
negative_sets!(i8, i16, i32, i64, isize, i128);
const J: &str = "the scaled sequence is sorted, and its intervals are separated by at least one tick";
/// scaling the sequence itself (not the set): whatever the sign of the factor, what comes out is a sequence of intervals again
fn sequence<I: Iterator<Item = TimeSpan>>(n: i128, f: impl FnOnce(TimeSpans) -> I) {
    let x = finite(); ghost(x, x);
    let (s, c, v) = few::<TimeValue>();
    let m = if n < 0 { -n } else { n }; let z = if n < 0 { -x } else { x };
    let mut w = false; let mut p = false;
    for (k, i) in v.into_iter().enumerate() { if k == c { break } let (l, u) = bounds(&i);
        if n == 0 { w |= x == 0 } else if lost(l, u, m) { p = true } else if (l == -M || l * m <= z) && (u == M || z <= u * m) { w = true } }
    allow_panic(p);
    let mut it = f(s);
    let mut seen = false; let mut last = -M; let mut first = true;
    while let Some(i) = it.next() {
        let (l, u) = bounds(&i);
        check(l <= u, J); check(first || l > last + 1, J);
        first = false; last = u;
        if l <= x && x <= u { seen = true }
    }
    check(seen == w, S)
}
macro_rules! sequences { ($($t:ident),*) => { $(
    pub fn ${concat(c15_sequence_, $t)}() { let n: $t = any(); assume(n as i128 <= MAX64); assume(n > 0); sequence(n as i128, |s| s.into_iter().scaling(n)) }
    pub fn ${concat(c15_sequence_zero_, $t)}() { let n: $t = any(); assume(n == 0); sequence(0, |s| s.into_iter().scaling(n)) }
)* } }
sequences!(i64, u32);
pub fn c15_sequence_negative() { let n: i64 = any(); assume(n as i128 >= -MAX64); assume(n < 0); sequence(n as i128, |s| s.into_iter().scaling(n)) }
