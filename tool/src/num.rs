//! Numeric abstract domain: linear forms over symbols, a zone (difference-bound
//! matrix) refined with general linear inequalities, and an exact rational
//! linear-programming bound used as the domain's entailment operator.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

pub type Sym = u32;
pub const INF: i128 = i128::MAX / 8;

thread_local! {
    static NEXT: RefCell<Sym> = const { RefCell::new(1) };
    static MONO: RefCell<(HashMap<Vec<Sym>, Sym>, HashMap<Sym, Vec<Sym>>)> = RefCell::new((HashMap::new(), HashMap::new()));
    pub static LP_CALLS: RefCell<u64> = const { RefCell::new(0) };
}

pub fn fresh_id() -> Sym { NEXT.with(|n| { let mut n = n.borrow_mut(); *n += 1; *n }) }

/// factors of a monomial symbol (itself if atomic)
pub fn factors(s: Sym) -> Vec<Sym> {
    MONO.with(|m| m.borrow().1.get(&s).cloned()).unwrap_or_else(|| vec![s])
}
pub fn is_mono(s: Sym) -> bool { MONO.with(|m| m.borrow().1.contains_key(&s)) }
/// hash-consed monomial symbol
pub fn mono(mut f: Vec<Sym>) -> Sym {
    f.sort();
    if f.len() == 1 { return f[0]; }
    MONO.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(s) = m.0.get(&f) { return *s; }
        let s = NEXT.with(|n| { let mut n = n.borrow_mut(); *n += 1; *n });
        m.0.insert(f.clone(), s);
        m.1.insert(s, f);
        s
    })
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin { pub c: i128, pub t: Vec<(Sym, i128)> }

impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.t.is_empty() { return write!(f, "{}", self.c); }
        for (i, (s, a)) in self.t.iter().enumerate() {
            if *a == 1 { write!(f, "{}s{}", if i > 0 { "+" } else { "" }, s)?; }
            else if *a == -1 { write!(f, "-s{}", s)?; }
            else { write!(f, "{}{}*s{}", if i > 0 && *a > 0 { "+" } else { "" }, a, s)?; }
        }
        if self.c != 0 { write!(f, "{:+}", self.c)?; }
        Ok(())
    }
}

impl Lin {
    pub fn c(c: i128) -> Lin { Lin { c, t: vec![] } }
    pub fn s(s: Sym) -> Lin { Lin { c: 0, t: vec![(s, 1)] } }
    pub fn konst(&self) -> Option<i128> { if self.t.is_empty() { Some(self.c) } else { None } }
    pub fn addk(&self, k: i128) -> Lin { let mut r = self.clone(); r.c = r.c.saturating_add(k); r }
    pub fn comb(&self, o: &Lin, k: i128) -> Lin {
        // self + k*o
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, o.t[j].1.saturating_mul(k))); j += 1; }
            else {
                let a = self.t[i].1.saturating_add(o.t[j].1.saturating_mul(k));
                if a != 0 { t.push((self.t[i].0, a)); }
                i += 1; j += 1;
            }
        }
        t.retain(|x| x.1 != 0);
        Lin { c: self.c.saturating_add(o.c.saturating_mul(k)), t }
    }
    pub fn add(&self, o: &Lin) -> Lin { self.comb(o, 1) }
    pub fn sub(&self, o: &Lin) -> Lin { self.comb(o, -1) }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 { return Lin::c(0); }
        Lin { c: self.c.saturating_mul(k), t: self.t.iter().map(|&(s, a)| (s, a.saturating_mul(k))).collect() }
    }
    pub fn neg(&self) -> Lin { self.scale(-1) }
    /// sum `self + o` where self is t1+c1, returns polynomials' monomial products
    pub fn mul_terms(&self, o: &Lin) -> (Lin, Vec<Sym>) {
        let mut acc: Vec<(Sym, i128)> = vec![];
        let mut monos = vec![];
        let mut push = |s: Sym, a: i128, acc: &mut Vec<(Sym, i128)>| {
            if let Some(x) = acc.iter_mut().find(|x| x.0 == s) { x.1 = x.1.saturating_add(a) } else { acc.push((s, a)) }
        };
        for &(s, a) in &self.t { push(s, a.saturating_mul(o.c), &mut acc) }
        for &(s, a) in &o.t { push(s, a.saturating_mul(self.c), &mut acc) }
        for &(s, a) in &self.t { for &(r, b) in &o.t {
            let mut f = factors(s); f.extend(factors(r));
            let m = mono(f);
            monos.push(m);
            push(m, a.saturating_mul(b), &mut acc)
        } }
        acc.retain(|x| x.1 != 0);
        acc.sort();
        (Lin { c: self.c.saturating_mul(o.c), t: acc }, monos)
    }
    pub fn syms<'a>(&'a self) -> impl Iterator<Item = Sym> + 'a { self.t.iter().map(|x| x.0) }
}

pub fn fdiv(a: i128, b: i128) -> i128 { a.div_euclid(b) }
pub fn cdiv(a: i128, b: i128) -> i128 { -((-a).div_euclid(b)) }
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a as i128 }

#[derive(Clone)]
pub struct Store {
    pub syms: Vec<Sym>,
    stride: usize,
    d: Vec<i128>,
    /// general inequalities: lin <= 0
    pub gens: Vec<Lin>,
    pub dead: bool,
}

#[inline] fn ad(a: i128, b: i128) -> i128 { if a >= INF || b >= INF { INF } else { a + b } }

impl Store {
    pub fn new() -> Store { Store { syms: vec![], stride: 8, d: vec![0; 64], gens: vec![], dead: false } }
    #[inline] pub fn n(&self) -> usize { self.syms.len() + 1 }
    #[inline] pub fn at(&self, i: usize, j: usize) -> i128 { self.d[i * self.stride + j] }
    #[inline] fn set(&mut self, i: usize, j: usize, v: i128) { let s = self.stride; self.d[i * s + j] = v }
    pub fn row(&self, s: Sym) -> Option<usize> { self.syms.iter().position(|x| *x == s).map(|p| p + 1) }
    pub fn row_of(&mut self, s: Sym) -> usize { if let Some(r) = self.row(s) { r } else { self.insert(s, -INF, INF) } }
    fn grow(&mut self) {
        let ns = self.stride * 2;
        let mut d = vec![0; ns * ns];
        for i in 0..self.n() { for j in 0..self.n() { d[i * ns + j] = self.at(i, j) } }
        self.stride = ns; self.d = d;
    }
    pub fn insert(&mut self, s: Sym, lo: i128, hi: i128) -> usize {
        if self.n() >= self.stride { self.grow() }
        let r = self.n();
        self.syms.push(s);
        for j in 0..r {
            let u = if hi >= INF { INF } else { ad(hi, self.at(0, j)) };
            let l = if lo <= -INF { INF } else { ad(self.at(j, 0), -lo) };
            self.set(r, j, u);
            self.set(j, r, l);
        }
        self.set(r, r, 0);
        r
    }
    /// a new symbol equal to `base + c`
    pub fn insert_alias(&mut self, s: Sym, base: usize, c: i128) {
        if self.n() >= self.stride { self.grow() }
        let r = self.n();
        self.syms.push(s);
        for j in 0..r {
            let (u, l) = (ad(self.at(base, j), c), ad(self.at(j, base), -c));
            self.set(r, j, u);
            self.set(j, r, l);
        }
        self.set(r, r, 0);
    }
    /// a store over `syms` with the given bound matrix (row 0 is the constant 0); closes it if asked
    pub fn from_matrix(syms: Vec<Sym>, m: impl Fn(usize, usize) -> i128, close: bool) -> Store {
        let n = syms.len() + 1;
        let mut stride = 8;
        while stride < n + 1 { stride *= 2 }
        let mut r = Store { syms, stride, d: vec![0; stride * stride], gens: vec![], dead: false };
        for i in 0..n { for j in 0..n { if i != j { r.set(i, j, m(i, j)) } } }
        if close {
            for k in 0..n { for i in 0..n {
                let x = r.at(i, k);
                if x >= INF { continue }
                for j in 0..n { let v = ad(x, r.at(k, j)); if v < r.at(i, j) { r.set(i, j, v) } }
            } }
            for i in 0..n { if r.at(i, i) < 0 { r.dead = true } }
        }
        r
    }
    pub fn fresh(&mut self, lo: i128, hi: i128) -> Lin { let s = fresh_id(); self.insert(s, lo, hi); Lin::s(s) }
    fn add_diff(&mut self, i: usize, j: usize, c: i128) -> bool {
        // v_i - v_j <= c ; returns true if changed
        if c >= INF || self.at(i, j) <= c { return false; }
        if i == j { if c < 0 { self.dead = true } return false; }
        if ad(self.at(j, i), c) < 0 { self.dead = true; return true; }
        let n = self.n();
        for a in 0..n {
            let ai = self.at(a, i);
            if ai >= INF { continue }
            let aic = ai + c;
            for b in 0..n {
                let v = ad(aic, self.at(j, b));
                if v < self.at(a, b) { self.set(a, b, v) }
            }
        }
        true
    }
    pub fn bounds_sym(&self, s: Sym) -> (i128, i128) {
        match self.row(s) { None => (-INF, INF), Some(r) => (-self.at(0, r), self.at(r, 0)) }
    }
    /// interval upper bound of a linear form, using pairs of opposite unit terms where possible
    pub fn ub(&self, l: &Lin) -> i128 {
        match l.t.len() {
            0 => return l.c,
            1 => { let (s, a) = l.t[0]; let (lo, hi) = self.bounds_sym(s);
                   let b = if a > 0 { hi } else { lo };
                   if b.abs() >= INF { return INF } return b.saturating_mul(a).saturating_add(l.c).min(INF) }
            _ => {}
        }
        let rows: Vec<(Option<usize>, i128)> = l.t.iter().map(|&(s, a)| (self.row(s), a)).collect();
        // naive interval sum
        let mut sum = l.c; let mut inf = false;
        for &(r, a) in &rows {
            match r { None => { inf = true; }
                Some(r) => { let b = if a > 0 { self.at(r, 0) } else { self.at(0, r) };
                    if b >= INF { inf = true } else { sum = sum.saturating_add(b.saturating_mul(a.abs())) } } }
        }
        let mut best = if inf { INF } else { sum };
        // greedy matching of opposite coefficients (all matchings for small sizes)
        if rows.len() <= 6 && rows.iter().all(|r| r.0.is_some()) {
            let v: Vec<(usize, i128)> = rows.iter().map(|r| (r.0.unwrap(), r.1)).collect();
            let m = self.match_ub(&v);
            if m < INF { best = best.min(m.saturating_add(l.c)); }
        }
        best.min(INF)
    }
    fn match_ub(&self, v: &[(usize, i128)]) -> i128 {
        if v.is_empty() { return 0 }
        let (r, a) = v[0];
        if a == 0 { return self.match_ub(&v[1..]) }
        let mut best = INF;
        // alone
        let b = if a > 0 { self.at(r, 0) } else { self.at(0, r) };
        if b < INF { let m = self.match_ub(&v[1..]); if m < INF { best = b.saturating_mul(a.abs()).saturating_add(m) } }
        for k in 1..v.len() {
            let (q, e) = v[k];
            if e == 0 || (e > 0) == (a > 0) { continue }
            let w = a.abs().min(e.abs());
            let dd = if a > 0 { self.at(r, q) } else { self.at(q, r) };
            if dd >= INF { continue }
            let mut rest = v.to_vec();
            rest[0].1 -= w * a.signum(); rest[k].1 -= w * e.signum();
            let m = self.match_ub(&rest);
            if m < INF { best = best.min(dd.saturating_mul(w).saturating_add(m)) }
        }
        best
    }
    pub fn lb(&self, l: &Lin) -> i128 { -self.ub(&l.neg()) }

    fn norm(l: &Lin) -> Lin {
        let mut g = 0;
        for x in &l.t { g = gcd(g, x.1) }
        if g <= 1 { return l.clone() }
        Lin { c: cdiv(l.c, g), t: l.t.iter().map(|x| (x.0, x.1 / g)).collect() }
    }
    /// adds lin <= 0; false if infeasible
    pub fn assume_le0(&mut self, l: &Lin) -> bool {
        if self.dead { return false }
        let l = Self::norm(l);
        self.push_le0(&l);
        if !self.dead && !self.gens.is_empty() {
            self.propagate();
            if !self.dead { self.lp_feasible(&l); }
        }
        !self.dead
    }
    fn push_le0(&mut self, l: &Lin) {
        match l.t.len() {
            0 => { if l.c > 0 { self.dead = true } }
            1 => { let (s, a) = l.t[0]; let r = self.row_of(s);
                if a > 0 { self.add_diff(r, 0, fdiv(-l.c, a)); } else { self.add_diff(0, r, -cdiv(l.c, -a)); } }
            2 if l.t[0].1 == 1 && l.t[1].1 == -1 => { let (i, j) = (self.row_of(l.t[0].0), self.row_of(l.t[1].0)); self.add_diff(i, j, -l.c); }
            2 if l.t[0].1 == -1 && l.t[1].1 == 1 => { let (i, j) = (self.row_of(l.t[1].0), self.row_of(l.t[0].0)); self.add_diff(i, j, -l.c); }
            _ => {
                for s in l.syms().collect::<Vec<_>>() { self.row_of(s); }
                if let Some(g) = self.gens.iter_mut().find(|g| g.t == l.t) { if l.c > g.c { g.c = l.c } }
                else { self.gens.push(l.clone()) }
                self.prop_one(l);
            }
        }
    }
    fn prop_one(&mut self, g: &Lin) -> bool {
        // sum a_k x_k + c <= 0
        let mut ch = false;
        let k = g.t.len();
        for i in 0..k {
            // bound on x_i : a_i x_i <= -(c + sum others)  using lower bound of others
            let mut rest = g.clone(); let (s, a) = rest.t.remove(i);
            let lo = self.lb(&rest);
            if lo > -INF {
                let r = self.row_of(s);
                ch |= if a > 0 { self.add_diff(r, 0, fdiv(-lo, a)) } else { self.add_diff(0, r, -cdiv(lo, -a)) };
                if self.dead { return true }
            }
            for j in 0..k { if j != i && g.t[i].1 > 0 && g.t[j].1 == -g.t[i].1 {
                let mut rest = g.clone();
                rest.t.retain(|x| x.0 != g.t[i].0 && x.0 != g.t[j].0);
                let lo = self.lb(&rest);
                if lo > -INF {
                    let (ri, rj) = (self.row_of(g.t[i].0), self.row_of(g.t[j].0));
                    ch |= self.add_diff(ri, rj, fdiv(-lo, g.t[i].1));
                    if self.dead { return true }
                }
            } }
        }
        ch
    }
    fn propagate(&mut self) {
        for _ in 0..4 {
            let mut ch = false;
            for i in 0..self.gens.len() { let g = self.gens[i].clone(); ch |= self.prop_one(&g); if self.dead { return } }
            if !ch { break }
        }
    }
    /// the zone relates a and b beyond what their bounds say
    fn linked(&self, a: usize, b: usize) -> bool {
        let f = |i: usize, j: usize| { let d = self.at(i, j); d < INF && (self.at(i, 0) >= INF || self.at(0, j) >= INF || d < self.at(i, 0) + self.at(0, j)) };
        a != b && (f(a, b) || f(b, a))
    }
    fn relevant(&self, l: &Lin) -> (Vec<Sym>, Vec<usize>) {
        let mut vars: Vec<Sym> = l.syms().collect();
        let mut gs: Vec<usize> = vec![];
        for wide in [false, true] {
            let (v0, g0) = (vars.clone(), gs.clone());
            loop {
                let mut ch = false;
                for (i, g) in self.gens.iter().enumerate() {
                    if gs.contains(&i) { continue }
                    if g.syms().any(|s| vars.contains(&s) || wide && self.row(s).map_or(false, |r| vars.iter().any(|v| self.row(*v).map_or(false, |q| self.linked(r, q))))) {
                        gs.push(i); ch = true;
                        for s in g.syms() { if !vars.contains(&s) { vars.push(s) } }
                    }
                }
                if !ch { break }
            }
            // the constraints reached through differences only count if they all fit
            if wide && vars.len() > 24 { return (v0, g0) }
        }
        (vars, gs)
    }
    pub fn has_monos(&self) -> bool { self.syms.iter().any(|s| is_mono(*s)) }
    /// re-derives what the current bounds of the factors say about each product
    /// (interval products, linear envelopes for small factors, monotonicity of
    /// multiplication by a factor of known sign); false if infeasible
    pub fn refresh(&mut self) -> bool {
        const SMALL: i128 = 1 << 40;
        for _ in 0..2 {
            let ms: Vec<Sym> = self.syms.iter().copied().filter(|s| is_mono(*s)).collect();
            for &m in &ms {
                let f = factors(m);
                // a square between l and h: a non-negative a lies between their roots
                if let [a, a1] = f[..] { if a == a1 && self.row(a).is_some() && self.bounds_sym(a).0 >= 0 {
                    let (lo, hi) = self.bounds_sym(m);
                    if lo > 0 && lo < INF { let mut r = (lo as f64).sqrt() as i128; while r * r < lo { r += 1 } while r > 0 && (r - 1) * (r - 1) >= lo { r -= 1 } self.push_le0(&Lin::s(a).neg().addk(r)) }
                    if self.dead { return false }
                    if hi >= 0 && hi < INF { let mut r = (hi as f64).sqrt() as i128; while r * r > hi { r -= 1 } while (r + 1) * (r + 1) <= hi { r += 1 } self.push_le0(&Lin::s(a).addk(-r)) }
                    if self.dead { return false }
                } }
                // squares of non-negative factors: a <= b + c gives a*a <= b*b + 2*c*b + c*c
                if let [a, a1] = f[..] { if a == a1 && self.bounds_sym(a).0 >= 0 { for &m2 in &ms {
                    let f2 = factors(m2);
                    let [b, b1] = f2[..] else { continue };
                    if m == m2 || b != b1 || self.bounds_sym(b).0 < 0 { continue }
                    let (Some(r), Some(r2)) = (self.row(a), self.row(b)) else { continue };
                    let c = self.at(r, r2);
                    if c.abs() > 8 { continue }
                    self.push_le0(&Lin::s(m).sub(&Lin::s(m2)).sub(&Lin::s(b).scale(2 * c)).addk(-c * c));
                    if self.dead { return false }
                } } }
                let mut done: Vec<Sym> = vec![];
                for i in 0..f.len() {
                    let a = f[i];
                    if done.contains(&a) { continue } done.push(a);
                    let mut rest = f.clone(); rest.remove(i);
                    let b = mono(rest);
                    if self.row(a).is_none() || self.row(b).is_none() { continue }
                    let ((al, ah), (bl, bh)) = (self.bounds_sym(a), self.bounds_sym(b));
                    if al > -INF && ah < INF && bl > -INF && bh < INF {
                        let c = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
                        let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                        if hi < INF { self.push_le0(&Lin::s(m).addk(-hi)) }
                        if lo > -INF && !self.dead { self.push_le0(&Lin::s(m).neg().addk(lo)) }
                    } else {
                        if al >= 0 && bl >= 0 || ah <= 0 && bh <= 0 { self.push_le0(&Lin::s(m).neg()) }
                        if al >= 0 && bh <= 0 || ah <= 0 && bl >= 0 { self.push_le0(&Lin::s(m)) }
                    }
                    if self.dead { return false }
                    for (l, h, al, ah, b) in [(bl, bh, al, ah, b), (al, ah, bl, bh, a)] {
                        // the other factor lies in [al, ah] and b has a known sign
                        let (m, b) = (Lin::s(m), Lin::s(b));
                        if al == ah && al.abs() <= SMALL { self.push_le0(&m.sub(&b.scale(al))); if !self.dead { self.push_le0(&b.scale(al).sub(&m)) } if self.dead { return false } continue }
                        if al.abs() <= 8 { if l >= 0 { self.push_le0(&b.scale(al).sub(&m)) } else if h <= 0 { self.push_le0(&m.sub(&b.scale(al))) } }
                        if self.dead { return false }
                        if ah.abs() <= 8 { if l >= 0 { self.push_le0(&m.sub(&b.scale(ah))) } else if h <= 0 { self.push_le0(&b.scale(ah).sub(&m)) } }
                        if self.dead { return false }
                    }
                    // m = a*b against m2 = a*b2
                    let (al, ah) = self.bounds_sym(a);
                    if al < 0 && ah > 0 { continue }
                    for &m2 in &ms {
                        if m2 == m { continue }
                        let mut f2 = factors(m2);
                        let Some(k) = f2.iter().position(|x| *x == a) else { continue };
                        f2.remove(k); let b2 = mono(f2);
                        let (Some(r), Some(r2)) = (self.row(b), self.row(b2)) else { continue };
                        let c = self.at(r, r2); // b - b2 <= c
                        if c.abs() > 8 { continue }
                        let (m, m2, ka) = (Lin::s(m), Lin::s(m2), Lin::s(a).scale(c));
                        if al >= 0 { self.push_le0(&m.sub(&m2).sub(&ka)) } else { self.push_le0(&m2.sub(&m).add(&ka)) }
                        if self.dead { return false }
                    }
                }
            }
            self.propagate();
            if self.dead { return false }
        }
        // one feasibility test over everything that mentions a product
        let l = Lin { c: 0, t: self.syms.iter().copied().filter(|s| is_mono(*s)).map(|s| (s, 1)).collect() };
        self.lp_feasible(&l);
        !self.dead
    }
    fn lp_feasible(&mut self, l: &Lin) {
        let (vars, gs) = self.relevant(l);
        if gs.is_empty() { return }
        if let LpRes::Infeasible = self.lp(&Lin::c(0), &vars, &gs) { self.dead = true }
    }
    /// least upper bound known for l
    pub fn max(&self, l: &Lin) -> i128 {
        let cheap = self.ub(l);
        let (vars, gs) = self.relevant(l);
        if gs.is_empty() && l.t.len() <= 1 { return cheap }
        if gs.is_empty() && l.t.len() == 2 && l.t[0].1 == -l.t[1].1 { return cheap }
        match self.lp(l, &vars, &gs) { LpRes::Max(m) => m.min(cheap), LpRes::Infeasible => -INF, LpRes::Unknown => cheap }
    }
    pub fn entails_le0(&self, l: &Lin) -> bool {
        if self.dead { return true }
        let l = &Self::norm(l);
        if self.ub(l) <= 0 { return true }
        if l.t.is_empty() { return false }
        if let Some(g) = self.gens.iter().find(|g| g.t == l.t) { if g.c >= l.c { return true } }
        if self.gens.is_empty() && (l.t.len() == 1 || (l.t.len() == 2 && l.t[0].1 == -l.t[1].1)) { return false }
        self.max(l) <= 0
    }
    pub fn eq0(&self, l: &Lin) -> bool { self.entails_le0(l) && self.entails_le0(&l.neg()) }
    pub fn assume_eq0(&mut self, l: &Lin) -> bool { self.assume_le0(l) && self.assume_le0(&l.neg()) }
    /// constant value if the form is determined
    pub fn value(&self, l: &Lin) -> Option<i128> {
        if let Some(c) = l.konst() { return Some(c) }
        let u = self.ub(l);
        if u >= INF { return None }
        let lo = self.lb(l);
        if lo == u { Some(u) } else { None }
    }
    /// keeps only the given symbols (projection)
    pub fn project(&mut self, keep: &dyn Fn(Sym) -> bool) {
        // eliminate from gens: Gauss on equalities, otherwise drop after propagation (zone part is closed)
        let elim: Vec<Sym> = self.gens.iter().flat_map(|g| g.syms().collect::<Vec<_>>()).filter(|s| !keep(*s)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        if !elim.is_empty() { self.propagate(); }
        for e in elim {
            // substitute by constant if determined
            let (lo, hi) = self.bounds_sym(e);
            // find unit equality e = lin among gens (g and -g both present) or zone equality e = v + c
            let mut subst: Option<Lin> = None;
            let mut skewed = false;
            if lo == hi { subst = Some(Lin::c(lo)) }
            if subst.is_none() {
                if let Some(r) = self.row(e) {
                    for (k, s) in self.syms.iter().enumerate() {
                        if *s != e && keep(*s) && self.at(r, k + 1) < INF && self.at(r, k + 1) == -self.at(k + 1, r) { subst = Some(Lin::s(*s).addk(self.at(r, k + 1))); break }
                    }
                    if subst.is_none() {
                        for (k, s) in self.syms.iter().enumerate() {
                            if *s != e && self.at(r, k + 1) < INF && self.at(r, k + 1) == -self.at(k + 1, r) && *s > e { subst = Some(Lin::s(*s).addk(self.at(r, k + 1))); break }
                        }
                    }
                }
            }
            if subst.is_none() {
                for g in &self.gens {
                    if let Some(&(_, a)) = g.t.iter().find(|x| x.0 == e) {
                        if a.abs() == 1 {
                            let ng = g.neg();
                            if self.gens.iter().any(|h| *h == ng) {
                                let mut rest = g.clone(); rest.t.retain(|x| x.0 != e);
                                subst = Some(rest.scale(-a)); skewed = true; break
                            }
                        }
                    }
                }
            }
            let old = std::mem::take(&mut self.gens);
            let mut with: Vec<Lin> = vec![]; let mut keepg = vec![];
            for g in old { if g.t.iter().any(|x| x.0 == e) { with.push(g) } else { keepg.push(g) } }
            self.gens = keepg;
            if let Some(s) = subst {
                if skewed {
                    // the zone's constraints on e carry over to its definition
                    if let Some(r) = self.row(e) {
                        let mut extra: Vec<Lin> = vec![];
                        for (k, t) in self.syms.iter().enumerate() {
                            if *t == e || !keep(*t) { continue }
                            let (a, b) = (self.at(r, k + 1), self.at(k + 1, r));
                            if a < INF { extra.push(s.sub(&Lin::s(*t)).addk(-a)) }
                            if b < INF { extra.push(Lin::s(*t).sub(&s).addk(-b)) }
                        }
                        for x in extra { let x = Self::norm(&x); if x.t.len() <= 4 && !self.entails_cheap(&x) && !self.entails_le0(&x) { self.push_le0(&x); } }
                    }
                }
                for g in with {
                    let a = g.t.iter().find(|x| x.0 == e).unwrap().1;
                    let mut r = g.clone(); r.t.retain(|x| x.0 != e);
                    let r = r.comb(&s, a);
                    let r = Self::norm(&r);
                    self.push_le0(&r);
                }
            } else if let Some(r) = self.row(e) {
                // one Fourier-Motzkin step, bounded; also with the zone bounds of e
                let mut pos: Vec<Lin> = with.iter().filter(|g| g.t.iter().any(|x| x.0 == e && x.1 == 1)).cloned().collect();
                let mut neg: Vec<Lin> = with.iter().filter(|g| g.t.iter().any(|x| x.0 == e && x.1 == -1)).cloned().collect();
                for (k, s) in self.syms.clone().iter().enumerate() {
                    if *s == e || !keep(*s) { continue }
                    if self.at(r, k + 1) < INF { pos.push(Lin { c: -self.at(r, k + 1), t: vec![(e, 1)] }.sub(&Lin::s(*s))) }
                    if self.at(k + 1, r) < INF { neg.push(Lin::s(*s).sub(&Lin { c: self.at(k + 1, r), t: vec![(e, 1)] })) }
                }
                let np = with.iter().filter(|g| g.t.iter().any(|x| x.0 == e && x.1 == 1)).count();
                let nn = with.iter().filter(|g| g.t.iter().any(|x| x.0 == e && x.1 == -1)).count();
                if pos.len() * nn + neg.len() * np <= 200 {
                    for (i, p) in pos.iter().enumerate() { for (j, q) in neg.iter().enumerate() {
                        if i >= np && j >= nn { continue }
                        let r = Self::norm(&p.add(q));
                        if r.t.len() <= 5 && !self.entails_cheap(&r) { self.push_le0(&r); }
                    } }
                }
            }
        }
        // drop rows
        let rows: Vec<usize> = (0..self.syms.len()).filter(|&k| keep(self.syms[k])).map(|k| k + 1).collect();
        if rows.len() != self.syms.len() {
            let mut st = 8; while st < rows.len() + 2 { st *= 2 }
            let mut d = vec![0; st * st];
            let all: Vec<usize> = std::iter::once(0).chain(rows.iter().copied()).collect();
            for (a, &i) in all.iter().enumerate() { for (b, &j) in all.iter().enumerate() { d[a * st + b] = self.at(i, j) } }
            self.syms = rows.iter().map(|&r| self.syms[r - 1]).collect();
            self.stride = st; self.d = d;
        }
        // drop gens already implied by the zone
        let gs = std::mem::take(&mut self.gens);
        for g in gs { if !self.entails_cheap(&g) { self.gens.push(g) } }
    }
    fn entails_cheap(&self, l: &Lin) -> bool { self.ub(l) <= 0 }

    fn lp(&self, obj: &Lin, vars: &[Sym], gs: &[usize]) -> LpRes {
        LP_CALLS.with(|c| *c.borrow_mut() += 1);
        if vars.len() > 24 { if std::env::var("LPDBG").is_ok() { eprintln!("lp too big {}", vars.len()) } return LpRes::Unknown }
        let rows: Vec<usize> = match vars.iter().map(|s| self.row(*s)).collect::<Option<Vec<_>>>() { Some(r) => r, None => return LpRes::Unknown };
        let k = rows.len();
        // shift by lower bounds
        if rows.iter().any(|&r| self.at(0, r) >= INF) { return LpRes::Unknown }
        let lo: Vec<i128> = rows.iter().map(|&r| -self.at(0, r)).collect();
        let mut a: Vec<Vec<i128>> = vec![]; let mut b: Vec<i128> = vec![];
        for i in 0..k {
            let u = self.at(rows[i], 0);
            if u < INF { let mut row = vec![0; k]; row[i] = 1; a.push(row); b.push(u - lo[i]); }
            for j in 0..k { if i != j {
                let c = self.at(rows[i], rows[j]);
                if c < INF {
                    // redundant if implied by bounds
                    if u < INF && self.at(0, rows[j]) < INF && u + self.at(0, rows[j]) <= c { continue }
                    // redundant through a third relevant variable
                    let mut red = false;
                    for m in 0..k { if m != i && m != j {
                        let (x, y) = (self.at(rows[i], rows[m]), self.at(rows[m], rows[j]));
                        if x < INF && y < INF && x + y <= c && !(self.at(rows[m], rows[i]) == -x && m > i) && !(self.at(rows[j], rows[m]) == -y && m > j) { red = true; break }
                    } }
                    if red { continue }
                    let mut row = vec![0; k]; row[i] = 1; row[j] = -1; a.push(row); b.push(c - lo[i] + lo[j]);
                }
            } }
        }
        for &g in gs {
            let g = &self.gens[g];
            let mut row = vec![0; k]; let mut c = -g.c;
            for &(s, co) in &g.t { let p = vars.iter().position(|v| *v == s).unwrap(); row[p] = co; c = c.saturating_sub(co.saturating_mul(lo[p])); }
            a.push(row); b.push(c);
        }
        let mut o = vec![0; k]; let mut oc = obj.c;
        for &(s, co) in &obj.t { let p = vars.iter().position(|v| *v == s).unwrap(); o[p] = co; oc = oc.saturating_add(co.saturating_mul(lo[p])); }
        match crate::lp::maximize(&a, &b, &o).or_else(|| crate::lp::maximize_big(&a, &b, &o)) {
            None => LpRes::Unknown,
            Some(crate::lp::Out::Infeasible) => LpRes::Infeasible,
            Some(crate::lp::Out::Unbounded) => LpRes::Max(INF),
            Some(crate::lp::Out::Max(num, den)) => LpRes::Max(fdiv(num, den).saturating_add(oc)),
        }
    }
}
enum LpRes { Max(i128), Infeasible, Unknown }
