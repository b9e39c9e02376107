//! Exact rational simplex (Bland's rule), used as the bound operator of the numeric domain.
#[derive(Clone, Copy, PartialEq)]
struct Q { n: i128, d: i128 }
fn g(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a as i128 }
impl Q {
    const Z: Q = Q { n: 0, d: 1 };
    fn i(n: i128) -> Q { Q { n, d: 1 } }
    fn mk(n: i128, d: i128) -> Q { if d == 1 { return Q { n, d } } let k = g(n, d); let (n, d) = if k > 1 { (n / k, d / k) } else { (n, d) }; if d < 0 { Q { n: -n, d: -d } } else { Q { n, d } } }
    fn mul(self, o: Q) -> Option<Q> {
        if self.d == 1 && o.d == 1 { return Some(Q { n: self.n.checked_mul(o.n)?, d: 1 }) }
        let (k1, k2) = (g(self.n, o.d).max(1), g(o.n, self.d).max(1));
        Some(Q::mk((self.n / k1).checked_mul(o.n / k2)?, (self.d / k2).checked_mul(o.d / k1)?))
    }
    fn sub(self, o: Q) -> Option<Q> {
        if self.d == 1 && o.d == 1 { return Some(Q { n: self.n.checked_sub(o.n)?, d: 1 }) }
        if self.d == o.d { return Some(Q::mk(self.n.checked_sub(o.n)?, self.d)) }
        let k = g(self.d, o.d);
        Some(Q::mk(self.n.checked_mul(o.d / k)?.checked_sub(o.n.checked_mul(self.d / k)?)?, (self.d / k).checked_mul(o.d)?))
    }
    fn inv(self) -> Q { if self.n < 0 { Q { n: -self.d, d: -self.n } } else { Q { n: self.d, d: self.n } } }
    fn lt(self, o: Q) -> Option<bool> { if self.d == o.d { return Some(self.n < o.n) } Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?) }
}
pub enum Out { Max(i128, i128), Infeasible, Unbounded }

/// maximize o.x subject to a x <= b, x >= 0
pub fn maximize(a: &[Vec<i128>], b: &[i128], o: &[i128]) -> Option<Out> {
    let (m, n) = (a.len(), o.len());
    // columns 0..n original (nonbasic), column n the auxiliary variable, column n+1 the constant
    let w = n + 2;
    let mut t: Vec<Vec<Q>> = (0..m).map(|i| { let mut r: Vec<Q> = a[i].iter().map(|x| Q::i(*x)).collect(); r.push(Q::i(-1)); r.push(Q::i(b[i])); r }).collect();
    let mut basis: Vec<usize> = (0..m).map(|i| n + 1 + i).collect();
    let mut nonb: Vec<usize> = (0..=n).collect(); // variable names in the columns; n = auxiliary
    let mut obj: Vec<Q> = vec![Q::Z; w];
    fn pivot(t: &mut [Vec<Q>], obj: &mut Vec<Q>, obj2: &mut Vec<Q>, basis: &mut [usize], nonb: &mut [usize], r: usize, c: usize) -> Option<()> {
        let p = t[r][c].inv();
        let w = t[r].len();
        for k in 0..w { if k != c { if t[r][k].n != 0 { t[r][k] = t[r][k].mul(p)? } } }
        t[r][c] = p;
        let row = t[r].clone();
        for i in 0..t.len() { if i != r && t[i][c].n != 0 {
            let f = t[i][c];
            for k in 0..w { if k != c && row[k].n != 0 { t[i][k] = t[i][k].sub(f.mul(row[k])?)? } }
            t[i][c] = Q::Z.sub(f.mul(p)?)?;
        } }
        for ob in [obj, obj2] { if ob[c].n != 0 {
            let f = ob[c];
            for k in 0..w { if k != c && row[k].n != 0 { ob[k] = ob[k].sub(f.mul(row[k])?)? } }
            ob[c] = Q::Z.sub(f.mul(p)?)?;
        } }
        std::mem::swap(&mut basis[r], &mut nonb[c]);
        Some(())
    }
    // objective rows hold reduced costs: maximize sum obj[k]*x_k, value = -obj[const]
    for k in 0..n { obj[k] = Q::i(o[k]) }
    let mut aux: Vec<Q> = vec![Q::Z; w];
    aux[n] = Q::i(-1);
    let mut barred = usize::MAX;
    if let Some(r) = (0..m).min_by_key(|&i| b[i]).filter(|&i| b[i] < 0) {
        pivot(&mut t, &mut aux, &mut obj, &mut basis, &mut nonb, r, n)?;
        loop {
            let c = (0..=n).filter(|&c| aux[c].n > 0).min_by_key(|&c| nonb[c]);
            let Some(c) = c else { break };
            let mut best: Option<(usize, Q)> = None;
            for i in 0..m { if t[i][c].n > 0 {
                let q = t[i][w - 1].mul(t[i][c].inv())?;
                let better = match best { None => true, Some((bi, bq)) => q.lt(bq)? || (q == bq && (basis[i] == n || (basis[i] < basis[bi] && basis[bi] != n))) };
                if better { best = Some((i, q)) }
            } }
            let Some((r, _)) = best else { return None };
            pivot(&mut t, &mut aux, &mut obj, &mut basis, &mut nonb, r, c)?;
        }
        if aux[w - 1].n != 0 { return Some(Out::Infeasible) }
        // drive the auxiliary variable out of the basis
        if let Some(r) = basis.iter().position(|&x| x == n) {
            if let Some(c) = (0..=n).find(|&c| t[r][c].n != 0) { pivot(&mut t, &mut aux, &mut obj, &mut basis, &mut nonb, r, c)?; }
        }
        if let Some(c) = nonb.iter().position(|&x| x == n) { barred = c }
    } else { barred = n }
    let mut iters = 0;
    loop {
        iters += 1; if iters > 500 { return None }
        let c = (0..=n).filter(|&c| c != barred && obj[c].n > 0).min_by_key(|&c| nonb[c]);
        let Some(c) = c else { break };
        let mut best: Option<(usize, Q)> = None;
        for i in 0..m { if t[i][c].n > 0 {
            let q = t[i][w - 1].mul(t[i][c].inv())?;
            let better = match best { None => true, Some((bi, bq)) => q.lt(bq)? || (q == bq && basis[i] < basis[bi]) };
            if better { best = Some((i, q)) }
        } }
        let Some((r, _)) = best else { return Some(Out::Unbounded) };
        let cc = c;
        pivot(&mut t, &mut obj, &mut aux, &mut basis, &mut nonb, r, cc)?;
    }
    let v = obj[w - 1];
    Some(Out::Max(-v.n, v.d))
}

/// the same by fraction-free pivoting on integers of any size, the bound being rounded down
pub fn maximize_big(a: &[Vec<i128>], b: &[i128], o: &[i128]) -> Option<Out> {
    use crate::big::Big;
    const BITS: usize = 1024;
    let (m, n) = (a.len(), o.len());
    let w = n + 2;
    // rows of the tableau, then the auxiliary objective and the objective; all over the common denominator `d`
    let mut t: Vec<Vec<Big>> = (0..m).map(|i| { let mut r: Vec<Big> = a[i].iter().map(|x| Big::new(*x)).collect(); r.push(Big::new(-1)); r.push(Big::new(b[i])); r }).collect();
    let mut aux = vec![Big::new(0); w]; aux[n] = Big::new(-1);
    let mut obj: Vec<Big> = o.iter().map(|x| Big::new(*x)).collect(); obj.push(Big::new(0)); obj.push(Big::new(0));
    t.push(aux); t.push(obj);
    let mut d = Big::new(1);
    let mut basis: Vec<usize> = (0..m).map(|i| n + 1 + i).collect();
    let mut nonb: Vec<usize> = (0..=n).collect();
    let pivot = |t: &mut Vec<Vec<Big>>, d: &mut Big, basis: &mut Vec<usize>, nonb: &mut Vec<usize>, r: usize, c: usize| -> Option<()> {
        let p = t[r][c].clone();
        let row = t[r].clone();
        for i in 0..t.len() { if i != r {
            let f = t[i][c].clone();
            for k in 0..w { if k != c {
                let x = t[i][k].mul(&p);
                let x = if f.sign() != 0 && row[k].sign() != 0 { x.sub(&f.mul(&row[k])) } else { x };
                t[i][k] = x.exact(d);
                if t[i][k].bits() > BITS { return None }
            } }
            t[i][c] = f.neg();
        } }
        t[r][c] = d.clone();
        *d = p;
        if d.sign() < 0 { *d = d.neg(); for r in t.iter_mut() { for x in r.iter_mut() { *x = x.neg() } } }
        std::mem::swap(&mut basis[r], &mut nonb[c]);
        Some(())
    };
    // leaving row of a column: smallest ratio, ties by name with the auxiliary variable first
    let leave = |t: &[Vec<Big>], basis: &[usize], c: usize| -> Option<usize> {
        let mut best: Option<usize> = None;
        for i in 0..m { if t[i][c].sign() > 0 {
            let Some(k) = best else { best = Some(i); continue };
            let s = t[i][w - 1].mul(&t[k][c]).sub(&t[k][w - 1].mul(&t[i][c])).sign();
            if s < 0 || s == 0 && (basis[i] == n || basis[i] < basis[k] && basis[k] != n) { best = Some(i) }
        } }
        best
    };
    let mut barred = n;
    let mut iters = 0;
    if let Some(r) = (0..m).min_by_key(|&i| b[i]).filter(|&i| b[i] < 0) {
        barred = usize::MAX;
        pivot(&mut t, &mut d, &mut basis, &mut nonb, r, n)?;
        while let Some(c) = (0..=n).filter(|&c| t[m][c].sign() > 0).min_by_key(|&c| nonb[c]) {
            iters += 1; if iters > 300 { return None }
            let r = leave(&t, &basis, c)?;
            pivot(&mut t, &mut d, &mut basis, &mut nonb, r, c)?;
        }
        if t[m][w - 1].sign() != 0 { return Some(Out::Infeasible) }
        if let Some(r) = basis.iter().position(|&x| x == n) {
            if let Some(c) = (0..=n).find(|&c| t[r][c].sign() != 0) { pivot(&mut t, &mut d, &mut basis, &mut nonb, r, c)?; }
        }
        if let Some(c) = nonb.iter().position(|&x| x == n) { barred = c }
    }
    while let Some(c) = (0..=n).filter(|&c| c != barred && t[m + 1][c].sign() > 0).min_by_key(|&c| nonb[c]) {
        iters += 1; if iters > 500 { return None }
        let Some(r) = leave(&t, &basis, c) else { return Some(Out::Unbounded) };
        pivot(&mut t, &mut d, &mut basis, &mut nonb, r, c)?;
    }
    Some(Out::Max(t[m + 1][w - 1].neg().floor(&d)?, 1))
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test] fn agree() {
        let mut x = 88172645463325252u64;
        let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        let mut seen = [0; 4];
        for _ in 0..100000 {
            let (m, n) = ((rnd() % 6 + 1) as usize, (rnd() % 4 + 1) as usize);
            let mut k = |z: u64| (rnd() % (2 * z + 1)) as i128 - z as i128;
            let a: Vec<Vec<i128>> = (0..m).map(|_| (0..n).map(|_| k(5)).collect()).collect();
            let b: Vec<i128> = (0..m).map(|_| k(20)).collect();
            let o: Vec<i128> = (0..n).map(|_| k(5)).collect();
            match (maximize(&a, &b, &o), maximize_big(&a, &b, &o)) {
                (Some(Out::Max(x, y)), Some(Out::Max(z, 1))) => { assert_eq!(x.div_euclid(y), z); seen[0] += 1 }
                (Some(Out::Infeasible), Some(Out::Infeasible)) => seen[1] += 1,
                (Some(Out::Unbounded), Some(Out::Unbounded)) => seen[2] += 1,
                (x, y) => panic!("{:?} {:?} {:?} {} {}", a, b, o, x.is_none(), y.is_none()),
            }
        }
        eprintln!("{:?}", seen);
    }
}
