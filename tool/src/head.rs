//! Loop heads: canonicalisation of states (garbage collection, folding of
//! sequences into runs), subsumption, join and widening.
use crate::interp::*;
use crate::num::*;
use crate::seq::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// `mat`: the bound matrix restricted to thresholds (not closed); `num`: the same, closed
pub struct Entry { pub id: u32, pub syms: Vec<Sym>, pub mat: Vec<i128>, pub num: Store, pub joins: u32, pub tried: HashMap<Vec<(usize, i128)>, u32> }

const DTHRESH: [i128; 5] = [-2, -1, 0, 1, 2];
const THRESH: [i128; 22] = [-(MAXT + 1), -MAXT, -MAXT + 1, -2, -1, 0, 1, 2, 3, 255, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 58, 1 << 60, MAXT - 1, MAXT, MAXT + 1, 2 * MAXT, u64::MAX as i128, 1 << 64];

fn relax(c: i128, diff: bool) -> i128 {
    for t in if diff { &DTHRESH[..] } else { &THRESH[..] } { if c <= *t { return *t } }
    INF
}

type Key = Vec<u8>;
fn put(k: &mut Key, v: u32) { k.extend_from_slice(&v.to_le_bytes()) }

impl<'tcx> Engine<'tcx> {
    fn val_refs(v: &Val<'tcx>, f: &mut dyn FnMut(&PlaceV, Option<(&Lin, &Lin)>)) {
        match v {
            Val::Ref(p) => f(p, None),
            Val::Slice(s) => f(&s.p, Some((&s.start, &s.len))),
            Val::Agg(a) => for x in &a.fields { Self::val_refs(x, f) },
            Val::Seq(s) => for g in &s.segs { if let Seg::Cell(_, x) = g { Self::val_refs(x, f) } },
            Val::It(i) => match &**i {
                ItV::Slice(s) | ItV::Windows(s, _) => f(&s.p, Some((&s.start, &s.len))),
                ItV::Own(s) => for g in &s.segs { if let Seg::Cell(_, x) = g { Self::val_refs(x, f) } },
            },
            _ => {}
        }
    }
    fn map_places(v: &mut Val<'tcx>, f: &dyn Fn(&mut PlaceV)) {
        match v {
            Val::Ref(p) => f(Rc::make_mut(p)),
            Val::Slice(s) => f(&mut Rc::make_mut(s).p),
            Val::Agg(a) => for x in &mut Rc::make_mut(a).fields { Self::map_places(x, f) },
            Val::Seq(s) => for g in &mut Rc::make_mut(s).segs { if let Seg::Cell(_, x) = g { Self::map_places(x, f) } },
            Val::It(i) => match Rc::make_mut(i) {
                ItV::Slice(s) | ItV::Windows(s, _) => f(&mut s.p),
                ItV::Own(s) => for g in &mut s.segs { if let Seg::Cell(_, x) = g { Self::map_places(x, f) } },
            },
            _ => {}
        }
    }
    /// drops dead locals and unreachable allocations; renumbers the rest
    fn collect_garbage(&self, st: &mut State<'tcx>) {
        let nf = st.frames.len();
        let mut keep: Vec<Vec<bool>> = vec![];
        for (d, fr) in st.frames.iter().enumerate() {
            let m = fr.locals.len();
            let mut k = vec![false; m];
            if d + 1 == nf {
                let live = &fr.f.live_in[fr.bb.as_usize()];
                for i in 0..m { k[i] = live[i] }
            } else {
                let callee = &st.frames[d + 1];
                if let Some(t) = callee.target {
                    let live = &fr.f.live_in[t.as_usize()];
                    for i in 0..m { k[i] = live[i] }
                    if let Some(dst) = &callee.dest {
                        if dst.projection.is_empty() { k[dst.local.as_usize()] = false } else { k[dst.local.as_usize()] = true }
                    }
                }
            }
            keep.push(k);
        }
        // reachability through references
        let mut order: Vec<u32> = vec![];
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut work: Vec<Root> = vec![];
        for d in 0..nf { for (i, k) in keep[d].iter().enumerate() { if *k { work.push(Root::Local(d as u32, i as u32)) } } }
        work.reverse();
        let mut done: BTreeSet<Root> = BTreeSet::new();
        while let Some(r) = work.pop() {
            if !done.insert(r) { continue }
            if let Root::Local(d, l) = r { keep[d as usize][l as usize] = true; }
            if let Root::Alloc(a) = r { if seen.insert(a) { order.push(a) } }
            if let Some(v) = self.root(st, r) {
                let mut new = vec![];
                Self::val_refs(v, &mut |p, _| new.push(p.root));
                new.reverse();
                work.extend(new);
            }
        }
        let map: HashMap<u32, u32> = order.iter().enumerate().map(|(i, a)| (*a, i as u32 + 1)).collect();
        let fix = |p: &mut PlaceV| { if let Root::Alloc(a) = p.root { p.root = Root::Alloc(*map.get(&a).unwrap_or(&a)) } };
        for d in 0..nf {
            let fr = Rc::make_mut(&mut st.frames[d]);
            for (i, k) in keep[d].iter().enumerate() {
                if !*k { fr.locals[i] = Val::Uninit } else { Self::map_places(&mut fr.locals[i], &fix) }
            }
        }
        let old = std::mem::take(Rc::make_mut(&mut st.heap));
        let mut h = BTreeMap::new();
        for (a, mut v) in old { if let Some(n) = map.get(&a) { Self::map_places(&mut v, &fix); h.insert(*n, v); } }
        st.heap = Rc::new(h);
    }
    /// all places holding sequences
    fn seq_places(v: &Val<'tcx>, p: &mut PlaceV, out: &mut Vec<PlaceV>) {
        match v {
            Val::Seq(s) => { out.push(p.clone()); for g in &s.segs { if let Seg::Cell(id, x) = g { p.path.push(PE::Cell(*id)); Self::seq_places(x, p, out); p.path.pop(); } } }
            Val::It(i) => if let ItV::Own(s) = &**i { out.push(p.clone()); for g in &s.segs { if let Seg::Cell(id, x) = g { p.path.push(PE::Cell(*id)); Self::seq_places(x, p, out); p.path.pop(); } } },
            Val::Agg(a) => for (i, x) in a.fields.iter().enumerate() { p.path.push(PE::F(i as u32)); Self::seq_places(x, p, out); p.path.pop(); },
            _ => {}
        }
    }
    fn all_roots(&self, st: &State<'tcx>) -> Vec<Root> {
        let mut v = vec![];
        for (d, fr) in st.frames.iter().enumerate() { for i in 0..fr.locals.len() { if !matches!(fr.locals[i], Val::Uninit) { v.push(Root::Local(d as u32, i as u32)) } } }
        for a in st.heap.keys() { v.push(Root::Alloc(*a)) }
        v
    }
    /// does the value satisfy its type's invariant for certain?
    pub fn sat_inv(&self, st: &State<'tcx>, ty: rustc_middle::ty::Ty<'tcx>, v: &Val<'tcx>) -> bool {
        if let Some((lo, hi)) = int_range(ty) { return match v { Val::Int(l) => is128(ty) || (st.num.entails_le0(&l.addk(-hi)) && st.num.entails_le0(&l.neg().addk(lo))), _ => false } }
        if self.is_interval(ty).is_some() {
            let Some((l, u)) = self.interval_of(ty, v) else { return false };
            if st.num.value(&l) == Some(MAXT) && st.num.value(&u) == Some(-MAXT) { return true }
            return self.valid(st, &l, &u);
        }
        if self.is_timeset(ty).is_some() {
            let Val::Agg(a) = v else { return false };
            let Some(Val::Seq(s)) = a.fields.first() else { return false };
            return s.segs.is_empty() || self.fold_canon_shape(st, s.elem, &s.segs).is_some();
        }
        if let rustc_middle::ty::TyKind::Adt(d, _) = ty.kind() {
            if Some(d.did().krate) == self.repo_crate && d.is_struct() && self.wrap_leaf(ty, Lin::c(0)).is_some() {
                return match self.leaf(v) { Some(l) => st.num.entails_le0(&l.addk(-MAXT)) && st.num.entails_le0(&l.neg().addk(-MAXT)), None => false };
            }
        }
        match v {
            Val::Agg(a) => match self.field_tys(ty, a.variant) { Some(f) => f.len() == a.fields.len() && f.iter().zip(&a.fields).all(|(t, x)| self.sat_inv(st, *t, x)), None => false },
            _ => false,
        }
    }
    pub fn valid(&self, st: &State<'tcx>, l: &Lin, u: &Lin) -> bool {
        let n = &st.num;
        n.entails_le0(&l.sub(u)) && n.entails_le0(&l.neg().addk(-MAXT)) && n.entails_le0(&u.addk(-MAXT)) && n.entails_le0(&l.addk(1 - MAXT)) && n.entails_le0(&u.neg().addk(1 - MAXT))
    }
    /// (lo, hi, rev, count) if the segments form one canonical run
    pub fn fold_canon_shape(&self, st: &State<'tcx>, elem: rustc_middle::ty::Ty<'tcx>, segs: &[Seg<'tcx>]) -> Option<(Lin, Lin, bool)> {
        self.is_interval(elem)?;
        let mut rev = None;
        let mut b: Vec<(Lin, Lin, bool)> = vec![]; // lo, hi, may be empty
        for s in segs {
            match s {
                Seg::Cell(_, v) => { let (l, u) = self.interval_of(elem, v)?; if !self.valid(st, &l, &u) { return None } b.push((l, u, false)) }
                Seg::Run(c, RunK::Canon { lo, hi, rev: r, .. }) => {
                    if rev.is_some() && rev != Some(*r) { return None }
                    rev = Some(*r);
                    b.push((lo.clone(), hi.clone(), !st.num.entails_le0(&Lin::c(1).sub(c))));
                }
                _ => return None,
            }
        }
        for dir in [false, true] {
            if rev.is_some() && rev != Some(dir) { continue }
            let mut w = b.clone();
            if dir { w.reverse() }
            let mut ok = true;
            'o: for i in 0..w.len() { for j in i + 1..w.len() {
                if !st.num.entails_le0(&w[i].1.sub(&w[j].0).addk(2)) { ok = false; break 'o }
                if !w[j].2 { break }
            } }
            if !ok { continue }
            let pick = |sel: &dyn Fn(&(Lin, Lin, bool)) -> Lin, sign: i128| -> Lin {
                for c in w.iter() { let c = sel(c); if w.iter().all(|x| st.num.entails_le0(&c.sub(&sel(x)).scale(sign))) { return c } }
                Lin::c(-sign * MAXT)
            };
            let lo = pick(&|x| x.0.clone(), 1);
            let hi = pick(&|x| x.1.clone(), -1);
            return Some((lo, hi, dir));
        }
        None
    }
    fn fold_group(&mut self, st: &mut State<'tcx>, elem: rustc_middle::ty::Ty<'tcx>, segs: &[Seg<'tcx>]) -> R<'tcx, Seg<'tcx>> {
        let n = Self::segs_len(segs);
        if let Some((lo, hi, rev)) = self.fold_canon_shape(st, elem, segs) {
            let gs = st.ghosts.clone();
            let mut hits = vec![];
            for (gi, (gl, gu)) in gs.iter().enumerate() {
                let mut best = NONE;
                for s in segs {
                    match s {
                        Seg::Run(_, RunK::Canon { hits, .. }) => best = best.max(hits[gi]),
                        Seg::Cell(_, v) => { let (l, u) = self.interval_of(elem, v).unwrap(); let k = self.cell_hit(st, &l, &u, gl, gu)?; best = best.max(k) }
                        _ => {}
                    }
                }
                hits.push(best);
            }
            return Ok(Seg::Run(n, RunK::Canon { lo, hi, hits, rev }));
        }
        if self.verbose > 4 && !segs.iter().any(|s| matches!(s, Seg::Run(_, RunK::Any { .. }))) { eprintln!("loss of order in {:?}", segs); self.dump(st); self.verbose = 1 }
        let inv = segs.iter().all(|s| match s { Seg::Cell(_, v) => self.sat_inv(st, elem, v), Seg::Run(_, RunK::Any { inv }) => *inv, Seg::Run(..) => true });
        Ok(Seg::Run(n, RunK::Any { inv }))
    }
    /// how an interval meets a ghost window (decides, i.e. may fork)
    pub fn cell_hit(&mut self, st: &mut State<'tcx>, l: &Lin, u: &Lin, gl: &Lin, gu: &Lin) -> R<'tcx, u8> {
        if !self.le(st, l, gu)? { return Ok(NONE) }
        if !self.le(st, gl, u)? { return Ok(NONE) }
        if !self.le(st, l, gl)? { return Ok(OVER) }
        if !self.le(st, gu, u)? { return Ok(OVER) }
        Ok(COVER)
    }
    /// folds the sequences of the state (one per call may fork)
    fn fold_all(&mut self, st: &mut State<'tcx>) -> R<'tcx, ()> {
        let roots = self.all_roots(st);
        let mut refs: Vec<(PlaceV, Option<(Lin, Lin)>)> = vec![];
        let mut places = vec![];
        for r in &roots {
            let v = self.root(st, *r).unwrap();
            Self::val_refs(v, &mut |p, s| refs.push((p.clone(), s.map(|(a, b)| (a.clone(), a.add(b))))));
            Self::seq_places(v, &mut PlaceV { root: *r, path: vec![] }, &mut places);
        }
        // innermost first
        places.sort_by_key(|p| std::cmp::Reverse(p.path.len()));
        for p in places {
            if self.peek(st, &p).is_none() { continue }
            let s = self.get_seq(st, &p)?;
            // remove empty runs
            let mut segs: Vec<Seg<'tcx>> = s.segs.iter().filter(|g| match g { Seg::Run(c, _) => !st.num.entails_le0(c), _ => true }).cloned().collect();
            let mut changed = segs.len() != s.segs.len();
            let mut pinned: BTreeSet<u32> = BTreeSet::new();
            let mut bounds: Vec<Lin> = vec![];
            for (q, s) in &refs {
                if q.root == p.root && q.path.len() > p.path.len() && q.path[..p.path.len()] == p.path[..] { if let PE::Cell(id) = q.path[p.path.len()] { pinned.insert(id); } }
                if *q == p { if let Some((a, b)) = s { bounds.push(a.clone()); bounds.push(b.clone()) } }
            }
            let cells = segs.iter().filter(|g| matches!(g, Seg::Cell(..))).count();
            let runs = segs.len() - cells;
            if runs > 0 || cells > 2 {
                let mut groups: Vec<Vec<Seg<'tcx>>> = vec![vec![]];
                let mut off = Lin::c(0);
                for g in segs.iter() {
                    let pin = matches!(g, Seg::Cell(id, _) if pinned.contains(id));
                    if bounds.iter().any(|b| st.num.eq0(&b.sub(&off))) { groups.push(vec![]) }
                    match g { Seg::Cell(..) => off = off.addk(1), Seg::Run(c, _) => off = off.add(c) }
                    if pin { groups.push(vec![g.clone()]); groups.push(vec![]) } else { groups.last_mut().unwrap().push(g.clone()) }
                }
                let mut out = vec![];
                for g in groups {
                    if g.is_empty() { continue }
                    let single_pin = g.len() == 1 && matches!(&g[0], Seg::Cell(id, _) if pinned.contains(id));
                    if single_pin || (g.len() == 1 && matches!(g[0], Seg::Run(..))) { out.extend(g); continue }
                    changed = true;
                    out.push(self.fold_group(st, s.elem, &g)?);
                }
                segs = out;
            }
            if changed { self.set_seq(st, &p, SeqV { elem: s.elem, segs })?; }
        }
        Ok(())
    }
    fn renumber_cells(&self, st: &mut State<'tcx>) {
        let roots = self.all_roots(st);
        let mut places = vec![];
        for r in &roots { let v = self.root(st, *r).unwrap(); Self::seq_places(v, &mut PlaceV { root: *r, path: vec![] }, &mut places); }
        let mut map: HashMap<u32, u32> = HashMap::new();
        let mut n = 0;
        for p in &places {
            let segs = match self.peek(st, p) { Some(Val::Seq(s)) => &s.segs, Some(Val::It(i)) => match &**i { ItV::Own(s) => &s.segs, _ => continue }, _ => continue };
            for g in segs { if let Seg::Cell(id, _) = g { map.entry(*id).or_insert_with(|| { n += 1; n }); } }
        }
        let fixp = |p: &mut PlaceV| { for e in p.path.iter_mut() { if let PE::Cell(id) = e { if let Some(x) = map.get(id) { *id = *x } } } };
        fn cells<'tcx>(v: &mut Val<'tcx>, map: &HashMap<u32, u32>) {
            let segs = match v {
                Val::Seq(s) => &mut Rc::make_mut(s).segs,
                Val::It(i) => { if !matches!(**i, ItV::Own(_)) { return } match Rc::make_mut(i) { ItV::Own(s) => &mut s.segs, _ => return } }
                Val::Agg(a) => { for x in &mut Rc::make_mut(a).fields { cells(x, map) } return }
                _ => return,
            };
            for g in segs { if let Seg::Cell(id, x) = g { *id = map[id]; cells(x, map) } }
        }
        for r in roots { if let Some(v) = self.root_mut(st, r) { Self::map_places(v, &fixp); cells(v, &map) } }
    }
    fn enc_place(k: &mut Key, p: &PlaceV) {
        match p.root { Root::Local(d, l) => { k.push(1); put(k, d); put(k, l) } Root::Alloc(a) => { k.push(2); put(k, a) } }
        for e in &p.path { match e { PE::F(i) => { k.push(3); put(k, *i) } PE::Cell(i) => { k.push(4); put(k, *i) } } }
        k.push(5);
    }
    fn walk_slice(k: &mut Key, s: &mut SliceV, f: &mut dyn FnMut(&mut Lin, bool)) {
        Self::enc_place(k, &s.p);
        let mut e = s.start.add(&s.len);
        f(&mut s.start, true); f(&mut e, true);
        s.len = e.sub(&s.start);
    }
    fn walk_seq(&self, k: &mut Key, s: &mut SeqV<'tcx>, f: &mut dyn FnMut(&mut Lin, bool)) {
        let mut old = Lin::c(0); let mut new = Lin::c(0);
        for g in s.segs.iter_mut() {
            match g {
                Seg::Cell(id, v) => { k.push(20); put(k, *id); self.walk(k, v, f); old = old.addk(1); new = new.addk(1); }
                Seg::Run(c, kind) => {
                    let mut e = old.add(c);
                    old = e.clone();
                    f(&mut e, true);
                    *c = e.sub(&new);
                    new = e;
                    match kind {
                        RunK::Canon { lo, hi, hits, rev } => { k.push(21); k.push(*rev as u8); k.extend_from_slice(hits); f(lo, true); f(hi, true) }
                        RunK::Any { inv } => { k.push(22); k.push(*inv as u8) }
                    }
                }
            }
        }
        k.push(23);
    }
    fn walk(&self, k: &mut Key, v: &mut Val<'tcx>, f: &mut dyn FnMut(&mut Lin, bool)) {
        match v {
            Val::Int(l) => { k.push(10); f(l, false) }
            Val::Agg(a) => { let a = Rc::make_mut(a); k.push(11); put(k, a.variant); put(k, a.fields.len() as u32); for x in &mut a.fields { self.walk(k, x, f) } }
            Val::Ref(p) => { k.push(12); Self::enc_place(k, p) }
            Val::Slice(s) => { k.push(13); Self::walk_slice(k, Rc::make_mut(s), f) }
            Val::Seq(s) => { k.push(14); self.walk_seq(k, Rc::make_mut(s), f) }
            Val::It(i) => match Rc::make_mut(i) {
                ItV::Slice(s) => { k.push(15); Self::walk_slice(k, s, f) }
                ItV::Own(s) => { k.push(16); self.walk_seq(k, s, f) }
                ItV::Windows(s, n) => { k.push(17); put(k, *n as u32); Self::walk_slice(k, s, f) }
            },
            Val::Str(s) => { k.push(18); k.extend_from_slice(s.as_bytes()); k.push(0) }
            Val::Top(t) => { k.push(19); let s = format!("{:?}", t); k.extend_from_slice(s.as_bytes()); k.push(0) }
            Val::Uninit => k.push(9),
        }
    }
    fn walk_state(&self, st: &mut State<'tcx>, f: &mut dyn FnMut(&mut Lin, bool)) -> Key {
        let mut k = vec![];
        for fr in st.frames.iter_mut() {
            let fr = Rc::make_mut(fr);
            put(&mut k, fr.f.id as u32); put(&mut k, fr.bb.as_u32()); put(&mut k, fr.si as u32); k.push(fr.head_done as u8);
            put(&mut k, fr.target.map_or(9999, |t| t.as_u32()));
            for (i, l) in fr.locals.iter_mut().enumerate() { if !matches!(l, Val::Uninit) { put(&mut k, i as u32); self.walk(&mut k, l, f) } }
            k.push(255);
        }
        for (a, v) in Rc::make_mut(&mut st.heap).iter_mut() { k.push(30); put(&mut k, *a); self.walk(&mut k, v, f) }
        for (a, b) in Rc::make_mut(&mut st.ghosts).iter_mut() { k.push(31); f(a, true); f(b, true) }
        k.push(st.panic_ok as u8);
        k.push(st.approx.is_some() as u8);
        k
    }
    fn dbg_valid(&mut self, st: &State<'tcx>, phase: &str) -> bool {
        if self.verbose != 5 { return false }
        let mut places = vec![];
        for r in &self.all_roots(st) { let v = self.root(st, *r).unwrap(); Self::seq_places(v, &mut PlaceV { root: *r, path: vec![] }, &mut places); }
        for p in places { if let Some(Val::Seq(s)) = self.peek(st, &p) { for g in &s.segs { if let Seg::Cell(_, v) = g { if let Some((l, u)) = self.interval_of(s.elem, v) { if !self.valid(st, &l, &u) {
            eprintln!("loss of order in {} cell {:?}", phase, g); self.dump(st); self.verbose = 1; return true
        } } } } } }
        false
    }
    pub fn at_head(&mut self, st: &mut State<'tcx>) -> R<'tcx, bool> {
        self.nheads += 1;
        if self.bounded {
            st.turns += 1;
            if st.turns > 400 { return Ok(false) }
            st.tag = None;
            st.cursor = 0;
            self.collect_garbage(st);
            st.choices.clear();
            return Ok(true)
        }
        if st.unroll > 0 && st.cuts == 0 {
            // a list of known length: each turn of the loop is a state of its own
            st.unroll -= 1;
            if st.unroll == 0 { st.approx = Some("unrolling limit".into()) }
            st.tag = None;
            st.cursor = 0;
            self.collect_garbage(st);
            st.choices.clear();
            return Ok(true)
        }
        st.lossy = true;
        self.dbg_valid(st, "before");
        if self.verbose == 6 { eprintln!("HEAD"); self.dump(st); }
        self.collect_garbage(st);
        st.cursor = 0;
        self.fold_all(st)?;
        st.choices.clear();
        self.renumber_cells(st);
        // each leaf becomes its own symbol
        let mut leaves: Vec<Lin> = vec![];
        let mut loose: Vec<bool> = vec![];
        self.walk_state(st, &mut |l, r| { leaves.push(l.clone()); loose.push(r) });
        // symbols whose value is known are replaced by it
        let plain: Vec<Lin> = leaves.iter().map(|l| { let mut r = Lin::c(l.c); for (s, c) in &l.t { r = match st.num.value(&Lin::s(*s)) { Some(k) => r.addk(k * c), None => r.add(&Lin::s(*s).scale(*c)) } } r }).collect();
        // leaves known to equal the product of two others, however they are written
        let mut before: Vec<(Sym, usize, usize)> = vec![];
        let mut equal: Vec<(usize, usize, usize)> = vec![];
        for m in st.num.syms.clone() {
            if !is_mono(m) { continue }
            let f = factors(m);
            let [a, b] = f[..] else { continue };
            let of = |s: Sym| leaves.iter().position(|x| x.c == 0 && x.t[..] == [(s, 1)]);
            let (Some(a), Some(b)) = (of(a), of(b)) else { continue };
            for (k, l) in leaves.iter().enumerate() { if !l.t.is_empty() && l.t[..] != [(m, 1)] { let d = l.sub(&Lin::s(m)); if st.num.lb(&d) == 0 && st.num.ub(&d) == 0 { equal.push((k, a, b)) } } }
        }
        for (k, l) in leaves.iter().enumerate() {
            if equal.iter().any(|e| e.0 == k) || l.t.len() > 8 { continue }
            let mut seen: Vec<Lin> = vec![];
            if l.t.iter().any(|(m, _)| is_mono(*m)) && !(l.c == 0 && l.t.len() == 1) {
                let mut pure: Vec<(usize, usize, Sym)> = vec![];
                for m in &st.num.syms { if is_mono(*m) { if let [a, b] = factors(*m)[..] {
                    let of = |s: Sym| leaves.iter().position(|x| x.c == 0 && x.t[..] == [(s, 1)]);
                    if let (Some(a), Some(b)) = (of(a), of(b)) { pure.push((a, b, *m)) }
                } } }
                pure.sort();
                if let Some((i, j, _)) = pure.into_iter().find(|(_, _, m)| { let d = l.sub(&Lin::s(*m)); seen.push(Lin::s(*m)); st.num.entails_le0(&d) && st.num.entails_le0(&d.neg()) }) { equal.push((k, i, j)); continue }
            }
            'found: for (m, c) in &l.t {
                if *c != 1 || !is_mono(*m) || l.c == 0 && l.t.len() == 1 { continue }
                let f = factors(*m);
                let [a, b] = f[..] else { continue };
                for i in 0..leaves.len() { if leaves[i].t[..] != [(a, 1)] { continue }
                    for j in 0..leaves.len() { if leaves[j].t[..] != [(b, 1)] || a == b && leaves[j].c != leaves[i].c { continue }
                        let p = leaves[i].mul_terms(&leaves[j]).0;
                        if seen.contains(&p) { continue }
                        let d = l.sub(&p);
                        if st.num.entails_le0(&d) && st.num.entails_le0(&d.neg()) { equal.push((k, i, j)); break 'found }
                        seen.push(p);
                    }
                }
            }
        }
        // … and so does a number of elements that is the square of the integer held just before it
        for k in 1..leaves.len() {
            if equal.iter().any(|e| e.0 == k) || !loose[k] || loose[k - 1] || leaves[k].t.is_empty() || leaves[k - 1].t.is_empty() { continue }
            if let (Some(v), Some(w)) = (st.num.value(&leaves[k]), st.num.value(&leaves[k - 1])) { if w >= 0 && w < 1 << 40 && v == w * w { equal.push((k, k - 1, k - 1)) } }
        }
        let mut syms: Vec<Sym> = vec![];
        let dbg6 = self.verbose == 6;
        {
            let n = Rc::make_mut(&mut st.num);
            let mut memo: HashMap<Lin, Sym> = HashMap::new();
            let mut mirrored: Vec<(Sym, Lin)> = vec![];
            for l in &leaves {
                let s = match memo.get(l) {
                    Some(_) => { let s = fresh_id(); s }
                    None => fresh_id(),
                };
                memo.entry(l.clone()).or_insert(s);
                let unit = match &l.t[..] { [(b, 1)] => n.row(*b), _ => None };
                match unit {
                    Some(b) => n.insert_alias(s, b, l.c),
                    None => {
                        let (lo, hi) = (n.lb(l), n.ub(l));
                        n.insert(s, lo, hi);
                        if !l.t.is_empty() { n.assume_eq0(&Lin::s(s).sub(l)); }
                        // mirrored symbols keep the differences of what they mirror
                        if !l.t.is_empty() {
                            mirrored.push((s, l.clone()));
                        }
                    }
                }
                syms.push(s);
            }
            // differences with the symbols whose definition is not a plain offset
            for (s, ds) in &mirrored { for (t, dt) in syms.iter().zip(&leaves) {
                if s == t { continue }
                // the bound is taken on the definitions, the symbols only stand for them
                let (e, d) = (ds.sub(dt), Lin::s(*s).sub(&Lin::s(*t)));
                for (e, d) in [(e.clone(), d.clone()), (e.neg(), d.neg())] {
                    let c = n.max(&e);
                    if dbg6 { eprintln!("mirror {:?} max {} ub {}", e, c, n.ub(&d)) }
                    if c < n.ub(&d) { n.assume_le0(&d.addk(-c)); }
                }
            } }
            let set: std::collections::HashSet<Sym> = syms.iter().copied().collect();
            n.project(&|s| set.contains(&s));
            n.gens.retain(|g| g.syms().all(|s| set.contains(&s)));
            if n.dead { return Err(Stop::Dead) }
        }
        for (k, a, b) in equal { before.push((syms[k], a, b)) }
        // leaves that are the product of two other leaves stay so
        let mut products: Vec<(usize, usize, usize)> = vec![];
        for k in 0..leaves.len() {
            if !leaves[k].t.is_empty() { if let Some((_, a, b)) = before.iter().find(|x| x.0 == syms[k]) { products.push((k, *a, *b)); continue } }
            let pure = |l: &Lin| match (l.c, &l.t[..]) { (0, [(m, 1)]) if is_mono(*m) => Some(*m), _ => None };
            let Some(m) = pure(&leaves[k]).or(pure(&plain[k])) else { continue };
            let f = factors(m);
            let [a, b] = f[..] else { continue };
            let of = |s: Sym| leaves.iter().position(|x| x.c == 0 && x.t[..] == [(s, 1)]);
            if let (Some(a), Some(b)) = (of(a), of(b)) { products.push((k, a, b)) }
        }
        if self.verbose == 6 { eprintln!("PRODUCTS {:?} of {:?}", products, leaves) }
        let mut it = 0;
        let mut key = self.walk_state(st, &mut |l, _| {
            *l = match products.iter().find(|p| p.0 == it) { Some((_, a, b)) => Lin::s(mono(vec![syms[*a], syms[*b]])), None => Lin::s(syms[it]) };
            it += 1;
        });
        for (k, a, b) in &products { key.push(32); for x in [k, a, b] { put(&mut key, *x as u32) } }
        let multiply = |n: &mut Store| {
            for (k, a, b) in &products {
                let m = mono(vec![syms[*a], syms[*b]]);
                let (lo, hi) = n.bounds_sym(syms[*k]);
                if n.row(m).is_none() { n.insert(m, lo, hi); }
                n.assume_eq0(&Lin::s(m).sub(&Lin::s(syms[*k])));
            }
        };
        self.dbg_valid(st, "leaves");
        // relations of the leaves to the extreme values and to the ghost windows
        let gs = st.ghosts.clone();
        {
            let n = &st.num;
            let mut rel = |a: &Lin, b: &Lin| -> u8 {
                let d = a.sub(b);
                let le = n.entails_le0(&d); let ge = n.entails_le0(&d.neg());
                if le && ge { return 3 }
                if le { return if n.ub(&d) < 0 { 1 } else { 4 } }
                if ge { return if n.lb(&d) > 0 { 2 } else { 4 } }
                4
            };
            for (s, loose) in syms.iter().zip(&loose) {
                let l = Lin::s(*s);
                if *loose { continue }
                match n.value(&l) { Some(c) if c == 0 || c == 1 => key.push(100 + c as u8), Some(c) if c == MAXT => key.push(103), Some(c) if c == -MAXT => key.push(104), _ => {
                    key.push(105);
                    for (a, b) in gs.iter() { key.push(rel(&l, a)); if a != b { key.push(rel(&l, b)) } }
                } }
            }
        }
        let verbose = self.verbose;
        let here = if verbose > 3 { format!("{} bb{}", st.top().f.name, st.top().bb.as_u32()) } else { String::new() };
        let dbgkey: String = if verbose > 3 { key.iter().map(|b| format!("{:x}.", b)).collect() } else { String::new() };
        let m = syms.len();
        // bounds restricted to the thresholds: the lattice has finite height
        let mat: Vec<i128> = {
            let n = &st.num;
            let r: Vec<usize> = std::iter::once(0).chain(syms.iter().map(|s| n.row(*s).unwrap())).collect();
            let mut v = Vec::with_capacity((m + 1) * (m + 1));
            for a in 0..=m { for b in 0..=m {
                let c = n.at(r[a], r[b]);
                v.push(if a == b { 0 } else if c >= INF { INF } else if (a == 0 || b == 0) && n.at(r[b], r[a]) == -c { c } else { relax(c, a != 0 && b != 0) });
            } }
            v
        };
        let build = |mat: &[i128], gens: Vec<Lin>| -> Store {
            let mut s = Store::from_matrix(syms.clone(), |a, b| mat[a * (m + 1) + b], true);
            for g in gens { if !s.entails_le0(&g) { s.assume_le0(&g); } }
            s
        };
        let es = self.heads.entry(key).or_default();
        if es.is_empty() {
            if verbose > 3 { eprintln!("head new {} leaves {} key {}", here, syms.len(), dbgkey) }
            let mut gens = st.num.gens.clone();
            // a number of elements that is the difference of two integers stays so
            for k in 0..m {
                let n = &st.num;
                if !loose[k] { continue }
                let Some(c) = n.value(&Lin::s(syms[k])) else { continue };
                if c < 3 || c > 64 { continue }
                for i in 0..m { for j in 0..m {
                    if i == j || loose[i] || loose[j] || n.value(&Lin::s(syms[i])).is_some() || n.value(&Lin::s(syms[j])).is_some() { continue }
                    let (a, b) = (n.row(syms[i]).unwrap(), n.row(syms[j]).unwrap());
                    if n.at(a, b) == c && n.at(b, a) == -c { let g = Lin::s(syms[i]).sub(&Lin::s(syms[j])).sub(&Lin::s(syms[k])); gens.push(g.neg()); gens.push(g) }
                } }
            }
            let num = build(&mat, gens);
            let mut own = num.clone(); multiply(&mut own);
            st.num = Rc::new(own);
            let id = self.versions.len() as u32;
            self.versions.push(0);
            st.tag = Some((id, 0));
            es.push(Entry { id, syms, mat, num, joins: 0, tried: HashMap::new() });
            return Ok(true);
        }
        let e = &mut es[0];
        let n = &st.num;
        let o2n: HashMap<Sym, Sym> = e.syms.iter().copied().zip(syms.iter().copied()).collect();
        let n2o: HashMap<Sym, Sym> = syms.iter().copied().zip(e.syms.iter().copied()).collect();
        let ren = |g: &Lin, mp: &HashMap<Sym, Sym>| -> Lin { let mut t: Vec<(Sym, i128)> = g.t.iter().map(|x| (mp[&x.0], x.1)).collect(); t.sort(); Lin { c: g.c, t } };
        // subsumption
        let sub = mat.iter().zip(&e.mat).all(|(x, y)| x <= y) && e.num.gens.iter().all(|g| n.entails_le0(&ren(g, &o2n)));
        if sub { return Ok(false) }
        // join over the new symbols
        e.joins += 1;
        self.versions[e.id as usize] += 1;
        st.tag = Some((e.id, self.versions[e.id as usize]));
        self.nwiden += 1;
        let tight = |i: usize, j: usize, v: &[i128]| (i == 0 || j == 0) && v[i * (m + 1) + j] == -v[j * (m + 1) + i];
        let jm: Vec<i128> = (0..(m + 1) * (m + 1)).map(|k| {
            let (i, j) = (k / (m + 1), k % (m + 1));
            let c = mat[k].max(e.mat[k]);
            if c >= INF || (mat[k] == e.mat[k] && tight(i, j, &mat) && tight(i, j, &e.mat)) { return c }
            if i == j { 0 } else { relax(c, i != 0 && j != 0) }
        }).collect();
        let mut gens: Vec<Lin> = vec![];
        for g in &e.num.gens { let g2 = ren(g, &o2n); if n.entails_le0(&g2) { gens.push(g2) } }
        // constraints of the arriving state that held before; each linear form is tried a few times only
        if e.joins <= 30 {
            for g in n.gens.clone() {
                if gens.contains(&g) { continue }
                let form: Vec<(usize, i128)> = g.t.iter().map(|(s, k)| (syms.iter().position(|x| x == s).unwrap_or(usize::MAX), *k)).collect();
                let t = e.tried.entry(form).or_insert(0);
                if *t >= 3 { continue }
                if n.entails_le0(&g) && e.num.entails_le0(&ren(&g, &n2o)) { *t += 1; gens.push(g) }
            }
        }
        if verbose > 3 { eprintln!("head join {} joins {}", here, e.joins) }
        let j = build(&jm, gens);
        e.syms = syms.clone();
        e.mat = jm;
        e.num = j.clone();
        let mut own = j; multiply(&mut own);
        st.num = Rc::new(own);
        self.dbg_valid(st, "join");
        Ok(true)
    }
}
