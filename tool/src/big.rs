//! Integers of any size, for the linear programs whose coefficients outgrow 128 bits.
#[derive(Clone, PartialEq)]
pub struct Big { neg: bool, m: Vec<u32> }
fn trim(m: &mut Vec<u32>) { while m.last() == Some(&0) { m.pop(); } }
fn cmp(a: &[u32], b: &[u32]) -> std::cmp::Ordering { a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev())) }
fn plus(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() < b.len() { (b, a) } else { (a, b) };
    let mut r = a.to_vec(); let mut c = 0u64;
    for i in 0..r.len() { let s = r[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c; r[i] = s as u32; c = s >> 32; if c == 0 && i >= b.len() { break } }
    if c > 0 { r.push(c as u32) }
    r
}
/// a - b, a >= b
fn minus(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = a.to_vec(); let mut c = 0i64;
    for i in 0..r.len() { let s = r[i] as i64 - *b.get(i).unwrap_or(&0) as i64 + c; r[i] = s as u32; c = s >> 32; if c == 0 && i >= b.len() { break } }
    trim(&mut r); r
}
fn times(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() { let s = r[i + j] as u64 + *x as u64 * *y as u64 + c; r[i + j] = s as u32; c = s >> 32; }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r); r
}
/// quotient and remainder
fn divide(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    if cmp(a, b).is_lt() { return (vec![], a.to_vec()) }
    if b.len() == 1 {
        let mut q = a.to_vec(); let mut r = 0u64;
        for x in q.iter_mut().rev() { let v = r << 32 | *x as u64; *x = (v / b[0] as u64) as u32; r = v % b[0] as u64; }
        trim(&mut q);
        return (q, if r == 0 { vec![] } else { vec![r as u32] })
    }
    let s = b[b.len() - 1].leading_zeros();
    let shl = |v: &[u32]| -> Vec<u32> { let mut r = vec![0u32; v.len() + 1]; for (i, x) in v.iter().enumerate() { let y = (*x as u64) << s; r[i] |= y as u32; r[i + 1] |= (y >> 32) as u32; } r };
    let mut u = shl(a); let mut v = shl(b); trim(&mut v);
    let n = v.len(); let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
        let (mut qh, mut rh) = (num / v[n - 1] as u64, num % v[n - 1] as u64);
        while qh >> 32 != 0 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) { qh -= 1; rh += v[n - 1] as u64; if rh >> 32 != 0 { break } }
        let (mut bo, mut c) = (0i64, 0u64);
        for i in 0..n { let p = qh * v[i] as u64 + c; c = p >> 32; let t = u[i + j] as i64 + bo - (p as u32) as i64; u[i + j] = t as u32; bo = t >> 32; }
        let t = u[j + n] as i64 + bo - c as i64; u[j + n] = t as u32;
        if t < 0 { qh -= 1; let mut c = 0u64; for i in 0..n { let s = u[i + j] as u64 + v[i] as u64 + c; u[i + j] = s as u32; c = s >> 32; } u[j + n] = (u[j + n] as u64 + c) as u32; }
        q[j] = qh as u32;
    }
    trim(&mut q);
    u.truncate(n);
    let mut r = vec![0u32; n];
    for i in 0..n { r[i] = ((u[i] as u64 | (*u.get(i + 1).unwrap_or(&0) as u64) << 32) >> s) as u32; }
    trim(&mut r);
    (q, r)
}
impl Big {
    fn mk(neg: bool, m: Vec<u32>) -> Big { Big { neg: neg && !m.is_empty(), m } }
    pub fn new(x: i128) -> Big { let mut u = x.unsigned_abs(); let mut m = vec![]; while u > 0 { m.push(u as u32); u >>= 32 } Big::mk(x < 0, m) }
    pub fn sign(&self) -> i32 { if self.m.is_empty() { 0 } else if self.neg { -1 } else { 1 } }
    pub fn bits(&self) -> usize { self.m.len() * 32 }
    pub fn neg(&self) -> Big { Big::mk(!self.neg, self.m.clone()) }
    pub fn mul(&self, o: &Big) -> Big { Big::mk(self.neg != o.neg, times(&self.m, &o.m)) }
    pub fn sub(&self, o: &Big) -> Big {
        if self.neg != o.neg { return Big::mk(self.neg, plus(&self.m, &o.m)) }
        if cmp(&self.m, &o.m).is_ge() { Big::mk(self.neg, minus(&self.m, &o.m)) } else { Big::mk(!self.neg, minus(&o.m, &self.m)) }
    }
    /// quotient of a division without remainder
    pub fn exact(&self, o: &Big) -> Big { let (q, r) = divide(&self.m, &o.m); debug_assert!(r.is_empty()); Big::mk(self.neg != o.neg, q) }
    /// quotient rounded down, the divisor being positive
    pub fn floor(&self, o: &Big) -> Option<i128> {
        let (mut q, r) = divide(&self.m, &o.m);
        if self.neg && !r.is_empty() { q = plus(&q, &[1]) }
        if q.len() > 3 { return None }
        let v = q.iter().rev().fold(0i128, |a, x| a << 32 | *x as i128);
        Some(if self.neg { -v } else { v })
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test] fn division() {
        let mut x = 88172645463325252u64;
        let mut rnd = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        for _ in 0..200000 {
            let gen = |n: usize, r: &mut dyn FnMut() -> u64| { let mut v: Vec<u32> = (0..n).map(|_| match r() % 4 { 0 => 0, 1 => u32::MAX, _ => r() as u32 }).collect(); trim(&mut v); v };
            let na = (rnd() % 9) as usize; let nb = (rnd() % 5 + 1) as usize;
            let a = gen(na, &mut rnd); let b = gen(nb, &mut rnd);
            if b.is_empty() { continue }
            let (q, r) = divide(&a, &b);
            assert!(cmp(&r, &b).is_lt());
            assert!(plus(&times(&q, &b), &r) == a || { let mut s = plus(&times(&q, &b), &r); trim(&mut s); s == a });
            assert!(Big::mk(false, a.clone()).sub(&Big::mk(false, b.clone())).sub(&Big::mk(true, b.clone())) == Big::mk(false, a.clone()));
        }
    }
}
