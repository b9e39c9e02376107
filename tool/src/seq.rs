//! Sequences (vectors, slices, owned iterators) as segment lists: materialised
//! cells between summarised runs.
use crate::interp::*;
use crate::num::*;
use crate::val::*;
use rustc_middle::ty::{Ty, TyKind};
use std::rc::Rc;

pub const NONE: u8 = 0;
pub const OVER: u8 = 1;
pub const COVER: u8 = 2;

impl<'tcx> Engine<'tcx> {
    pub fn new_cell(&mut self) -> u32 { self.cell_ctr += 1; self.cell_ctr }
    pub fn seq_val(&self, elem: Ty<'tcx>, segs: Vec<Seg<'tcx>>) -> Val<'tcx> { Val::Seq(Rc::new(SeqV { elem, segs })) }
    /// the sequence stored at a place (a vector, array, or owned iterator)
    pub fn get_seq(&mut self, st: &mut State<'tcx>, p: &PlaceV) -> R<'tcx, Rc<SeqV<'tcx>>> {
        match self.read(st, p)? {
            Val::Seq(s) => Ok(s),
            Val::It(i) => match &*i { ItV::Own(s) => Ok(Rc::new(s.clone())), _ => Err(Stop::Unsup("sequence of a borrowed iterator".into())) },
            v => Err(Stop::Unsup(format!("sequence expected, found {:?}", v))),
        }
    }
    pub fn set_seq(&mut self, st: &mut State<'tcx>, p: &PlaceV, s: SeqV<'tcx>) -> R<'tcx, ()> {
        let owned = matches!(self.peek(st, p), Some(Val::It(_)));
        self.write(st, p, if owned { Val::It(Rc::new(ItV::Own(s))) } else { Val::Seq(Rc::new(s)) })
    }
    pub fn segs_len(segs: &[Seg<'tcx>]) -> Lin {
        let mut n = Lin::c(0);
        for s in segs { match s { Seg::Cell(..) => n = n.addk(1), Seg::Run(c, _) => n = n.add(c) } }
        n
    }
    pub fn seq_len(&mut self, st: &mut State<'tcx>, p: &PlaceV) -> R<'tcx, Lin> {
        let v = self.read(st, p)?;
        if let Val::Slice(s) = &v { return Ok(s.len.clone()) }
        let s = self.get_seq(st, p)?;
        Ok(Self::segs_len(&s.segs))
    }
    /// fills a whole sequence of unknown length, given as a slice
    pub fn summarise_fill(&mut self, st: &mut State<'tcx>, s: &Val<'tcx>, x: &Val<'tcx>) -> R<'tcx, bool> {
        let Val::Slice(s) = s else { return Ok(false) };
        if !matches!(self.peek(st, &s.p), Some(Val::Seq(_))) { return Ok(false) }
        let q = self.get_seq(st, &s.p)?;
        let n = Self::segs_len(&q.segs);
        if !st.num.eq0(&s.start) || !st.num.eq0(&s.len.sub(&n)) || st.num.value(&n).is_some() { return Ok(false) }
        let inv = self.sat_inv(st, q.elem, x);
        self.set_seq(st, &s.p, SeqV { elem: q.elem, segs: vec![Seg::Run(n, RunK::Any { inv })] })?;
        Ok(true)
    }
    /// choose one of n alternatives (remembered across the restart of the step)
    pub fn choose(&mut self, st: &mut State<'tcx>, n: u32) -> R<'tcx, u32> {
        if n == 1 { return Ok(0) }
        if st.cursor < st.choices.len() { st.cursor += 1; return Ok(st.choices[st.cursor - 1]) }
        let mut v = vec![];
        for k in 0..n { let mut s = st.clone(); s.choices.push(k); s.cursor = 0; v.push(s) }
        Err(Stop::Fork(v))
    }
    /// an arbitrary value of a type, satisfying the crate's type invariants
    pub fn any_inv(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        if let Some((lo, hi)) = int_range(ty) { return Ok(Val::Int(st.nm().fresh(lo, hi))) }
        if let Some(t) = self.is_interval(ty) {
            if self.choose(st, 2)? == 0 { return Ok(self.mk_interval(ty, Lin::c(MAXT), Lin::c(-MAXT)).unwrap()) }
            let _ = t;
            let l = st.nm().fresh(-MAXT, MAXT - 1); let u = st.nm().fresh(-MAXT + 1, MAXT);
            self.assume(st, &l.sub(&u))?;
            return Ok(self.mk_interval(ty, l, u).unwrap());
        }
        if let Some(t) = self.is_timeset(ty) {
            let it = self.field_tys(ty, 0).unwrap()[0];
            let elem = self.is_vec(it).unwrap_or(t);
            let v = self.any_canon(st, elem)?;
            return Ok(Val::agg(0, vec![v]));
        }
        if let TyKind::Adt(d, _) = ty.kind() {
            if Some(d.did().krate) == self.repo_crate && d.is_struct() {
                if let Some(v) = { let l = st.nm().fresh(-MAXT, MAXT); self.wrap_leaf(ty, l) } { return Ok(v) }
            }
            if self.is_vec(ty).is_none() && !self.transparent(ty) {
                if d.is_struct() { let f = self.field_tys(ty, 0).unwrap(); let mut v = vec![]; for t in f { v.push(self.any_inv(st, t)?) } return Ok(Val::agg(0, v)) }
                if d.is_enum() {
                    let n = d.variants().len() as u32;
                    let k = self.choose(st, n)?;
                    let f = self.field_tys(ty, k).unwrap(); let mut v = vec![]; for t in f { v.push(self.any_inv(st, t)?) } return Ok(Val::agg(k, v))
                }
            }
        }
        if let TyKind::Tuple(ts) = ty.kind() { let mut v = vec![]; for t in ts.iter() { v.push(self.any_inv(st, t)?) } return Ok(Val::agg(0, v)) }
        Ok(self.expand(st, ty))
    }
    /// an arbitrary canonical list of intervals
    pub fn any_canon(&mut self, st: &mut State<'tcx>, elem: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let mut hits = vec![];
        let gs = st.ghosts.clone();
        for (a, b) in gs.iter() {
            let point = st.num.eq0(&a.sub(b));
            let k = self.choose(st, if point { 2 } else { 3 })?;
            hits.push(match k { 0 => NONE, 1 => COVER, _ => OVER });
        }
        let lo = if hits.iter().any(|h| *h > 0) { 1 } else { 0 };
        let n = if self.bounded { Lin::c(lo + self.choose(st, (self.small - lo + 1) as u32)? as i128) } else { st.nm().fresh(lo, 1 << 58) };
        if n.konst() == Some(0) { return Ok(self.seq_val(elem, vec![])) }
        Ok(self.seq_val(elem, vec![Seg::Run(n, RunK::Canon { lo: Lin::c(-MAXT), hi: Lin::c(MAXT), hits, rev: false })]))
    }
    fn tail_facts(&self, st: &mut State<'tcx>, segs: &[Seg<'tcx>]) -> bool {
        for s in segs { if let Seg::Run(c, RunK::Canon { hits, .. }) = s { if hits.iter().any(|h| *h > 0) { if !st.nm().assume_le0(&Lin::c(1).sub(c)) { return false } } } }
        !st.num.dead
    }
    /// splits a run at its r-th element; one result per distribution of the ghost windows
    fn split_run(&mut self, st: &State<'tcx>, elem: Ty<'tcx>, cnt: &Lin, k: &RunK, r: &Lin) -> R<'tcx, Vec<(State<'tcx>, Vec<Seg<'tcx>>)>> {
        let mut base = st.clone();
        let rest = cnt.sub(r).addk(-1);
        let no_pre = base.num.entails_le0(r);
        let no_suf = base.num.entails_le0(&rest);
        // a part dropped because it is empty has length zero
        if no_pre && r.konst().is_none() { base.nm().assume_eq0(r); }
        if no_suf && rest.konst().is_none() { base.nm().assume_eq0(&rest); }
        if base.num.dead { return Ok(vec![]) }
        match k {
            RunK::Any { inv } => {
                let v = if *inv { match self.any_inv(&mut base, elem) {
                    Ok(v) => v,
                    Err(Stop::Fork(f)) => return Err(Stop::Fork(f)),
                    Err(e) => return Err(e),
                } } else { Val::Top(elem) };
                let mut segs = vec![];
                if !no_pre { segs.push(Seg::Run(r.clone(), k.clone())) }
                segs.push(Seg::Cell(self.new_cell(), v));
                if !no_suf { segs.push(Seg::Run(rest, k.clone())) }
                Ok(vec![(base, segs)])
            }
            RunK::Canon { lo, hi, hits, rev } => {
                let l = base.nm().fresh(-MAXT, MAXT - 1); let u = base.nm().fresh(-MAXT + 1, MAXT);
                for c in [l.sub(&u), lo.sub(&l), u.sub(hi)] { if !base.nm().assume_le0(&c) { return Ok(vec![]) } }
                // low / high side runs (in value order)
                let (nl, nh) = if *rev { (no_suf, no_pre) } else { (no_pre, no_suf) };
                let mut alts: Vec<(State<'tcx>, Vec<u8>, Vec<u8>)> = vec![(base, vec![], vec![])];
                let gs = st.ghosts.clone();
                for (gi, f) in hits.iter().enumerate() {
                    let (gl, gu) = &gs[gi];
                    let before = gu.sub(&l).addk(1); // gu < l
                    let after = u.sub(gl).addk(1); // u < gl
                    let mut opts: Vec<(u8, u8, Vec<Lin>)> = vec![];
                    match *f {
                        NONE => { opts.push((0, 0, vec![before.clone()])); opts.push((0, 0, vec![after.clone()])); }
                        COVER => {
                            opts.push((0, 0, vec![l.sub(gl), gu.sub(&u)]));
                            if !nl { opts.push((2, 0, vec![gu.sub(&l).addk(2), lo.sub(gl)])) }
                            if !nh { opts.push((0, 2, vec![u.sub(gl).addk(2), gu.sub(hi)])) }
                        }
                        _ => {
                            if !nl { opts.push((1, 0, vec![before.clone()])) }
                            if !nh { opts.push((0, 1, vec![after.clone()])) }
                            let over = [gl.sub(&u), l.sub(gu)];
                            let lt = gl.sub(&l).addk(1); let ge = l.sub(gl);
                            let gt = u.sub(gu).addk(1); let le = gu.sub(&u);
                            for s in 0..2u8 { if s == 0 || !nh { opts.push((0, s, vec![over[0].clone(), over[1].clone(), ge.clone(), gt.clone()])) } }
                            for p in 0..2u8 { if p == 0 || !nl { opts.push((p, 0, vec![over[0].clone(), over[1].clone(), lt.clone(), le.clone()])) } }
                            for p in 0..2u8 { for s in 0..2u8 { if (p == 0 || !nl) && (s == 0 || !nh) { opts.push((p, s, vec![lt.clone(), gt.clone()])) } } }
                        }
                    }
                    let mut next = vec![];
                    for (s, a, b) in alts {
                        for (x, y, cs) in &opts {
                            let mut s2 = s.clone();
                            if cs.iter().all(|c| s2.nm().assume_le0(c)) { let mut a = a.clone(); let mut b = b.clone(); a.push(*x); b.push(*y); next.push((s2, a, b)) }
                        }
                    }
                    alts = next;
                }
                let id = self.new_cell();
                let cell = Seg::Cell(id, self.mk_interval(elem, l.clone(), u.clone()).unwrap());
                let mut out = vec![];
                for (mut s, a, b) in alts {
                    let low = RunK::Canon { lo: lo.clone(), hi: l.addk(-2), hits: a, rev: *rev };
                    let high = RunK::Canon { lo: u.addk(2), hi: hi.clone(), hits: b, rev: *rev };
                    let (p, q) = if *rev { (high, low) } else { (low, high) };
                    let mut segs = vec![];
                    if !no_pre { segs.push(Seg::Run(r.clone(), p)) }
                    segs.push(cell.clone());
                    if !no_suf { segs.push(Seg::Run(rest.clone(), q)) }
                    if !self.tail_facts(&mut s, &segs) { continue }
                    // a run whose bounds leave no room is empty
                    let mut keep = vec![];
                    let mut ok = true;
                    for g in segs {
                        if let Seg::Run(c, RunK::Canon { lo, hi, .. }) = &g {
                            if s.num.entails_le0(&hi.sub(lo).addk(1)) { ok &= s.nm().assume_le0(c); continue }
                        }
                        keep.push(g)
                    }
                    if ok && !s.num.dead { out.push((s, keep)) }
                }
                Ok(out)
            }
        }
    }
    /// makes element `idx` of the sequence at `p` a cell and returns its place
    pub fn ensure_cell(&mut self, st: &mut State<'tcx>, p: &PlaceV, idx: &Lin) -> R<'tcx, PlaceV> {
        let (id, _) = self.ensure_cell_at(st, p, idx)?;
        Ok(p.cell(id))
    }
    /// as `ensure_cell`; returns the cell id and its segment index
    pub fn ensure_cell_at(&mut self, st: &mut State<'tcx>, p: &PlaceV, idx: &Lin) -> R<'tcx, (u32, usize)> {
        let s = self.get_seq(st, p)?;
        // entailed positions first
        let mut off = Lin::c(0);
        for (k, g) in s.segs.iter().enumerate() {
            match g {
                Seg::Cell(id, _) => { if st.num.eq0(&idx.sub(&off)) { return Ok((*id, k)) } off = off.addk(1); }
                Seg::Run(c, _) => off = off.add(c),
            }
        }
        if !self.decide(st, &idx.neg())? { return Err(Stop::Panic("access out of bounds (negative index)".into())) }
        let mut off = Lin::c(0);
        for (k, g) in s.segs.iter().enumerate() {
            match g {
                Seg::Cell(id, _) => {
                    if self.decide(st, &idx.sub(&off))? { return Ok((*id, k)) }
                    off = off.addk(1);
                }
                Seg::Run(c, kind) => {
                    let end = off.add(c);
                    if self.lt(st, idx, &end)? {
                        let r = idx.sub(&off);
                        let c0 = st.cursor;
                        let mut res = self.split_run(st, s.elem, c, kind, &r)?;
                        // the split is kept in the state: its alternatives are not replayed
                        for (s2, _) in res.iter_mut() { if s2.cursor > c0 { s2.choices.drain(c0..s2.cursor); s2.cursor = c0 } }
                        let mut v = vec![];
                        for (mut s2, segs) in res {
                            let mut all = s.segs[..k].to_vec(); all.extend(segs); all.extend_from_slice(&s.segs[k + 1..]);
                            self.set_seq(&mut s2, p, SeqV { elem: s.elem, segs: all })?;
                            v.push(s2);
                        }
                        if v.len() == 1 { *st = v.pop().unwrap(); return self.ensure_cell_at(st, p, idx) }
                        return self.fork(v);
                    }
                    off = end;
                }
            }
        }
        Err(Stop::Panic("access out of bounds".into()))
    }
    /// a segment boundary at element index `idx` (0..=len)
    pub fn cut(&mut self, st: &mut State<'tcx>, p: &PlaceV, idx: &Lin) -> R<'tcx, usize> {
        let s = self.get_seq(st, p)?;
        let mut off = Lin::c(0);
        if st.num.eq0(idx) { return Ok(0) }
        for (k, g) in s.segs.iter().enumerate() {
            match g { Seg::Cell(..) => off = off.addk(1), Seg::Run(c, _) => off = off.add(c) }
            if st.num.eq0(&idx.sub(&off)) { return Ok(k + 1) }
        }
        if !self.lt(st, idx, &off)? {
            if !self.decide(st, &idx.sub(&off))? { return Err(Stop::Panic("range out of bounds".into())) }
            return Ok(s.segs.len());
        }
        let (_, k) = self.ensure_cell_at(st, p, idx)?;
        Ok(k)
    }
    /// removes the range [a,b) and returns its segments
    pub fn take_range(&mut self, st: &mut State<'tcx>, p: &PlaceV, a: &Lin, b: &Lin) -> R<'tcx, Vec<Seg<'tcx>>> {
        let n = self.seq_len(st, p)?;
        if !self.le(st, a, b)? || !self.le(st, b, &n)? { return Err(Stop::Panic("range out of bounds".into())) }
        self.cut(st, p, a)?;
        let kb = self.cut(st, p, b)?;
        let ka = self.cut(st, p, a)?;
        let kb = { let _ = kb; self.cut(st, p, b)? };
        let mut s = (*self.get_seq(st, p)?).clone();
        if ka > kb { return Ok(vec![]) }
        let mid: Vec<Seg<'tcx>> = s.segs.drain(ka..kb).collect();
        self.set_seq(st, p, s)?;
        Ok(mid)
    }
    /// copies the segments of a slice [start, start+len)
    pub fn copy_range(&mut self, st: &mut State<'tcx>, sl: &SliceV) -> R<'tcx, SeqV<'tcx>> {
        let end = sl.start.add(&sl.len);
        self.cut(st, &sl.p, &sl.start)?;
        self.cut(st, &sl.p, &end)?;
        let ka = self.cut(st, &sl.p, &sl.start)?;
        let kb = self.cut(st, &sl.p, &end)?;
        let s = self.get_seq(st, &sl.p)?;
        let segs = if ka <= kb { s.segs[ka..kb].to_vec() } else { vec![] };
        let segs = segs.into_iter().map(|g| match g { Seg::Cell(_, v) => Seg::Cell(self.new_cell(), v), r => r }).collect();
        Ok(SeqV { elem: s.elem, segs })
    }
    pub fn rev_segs(segs: Vec<Seg<'tcx>>) -> Vec<Seg<'tcx>> {
        segs.into_iter().rev().map(|g| match g { Seg::Run(c, RunK::Canon { lo, hi, hits, rev }) => Seg::Run(c, RunK::Canon { lo, hi, hits, rev: !rev }), g => g }).collect()
    }
    /// first / last element of an owned iterator, removed
    pub fn own_next(&mut self, st: &mut State<'tcx>, p: &PlaceV, back: bool) -> R<'tcx, Option<Val<'tcx>>> {
        let n = self.seq_len(st, p)?;
        if self.decide(st, &n)? { return Ok(None) }
        let idx = if back { n.addk(-1) } else { Lin::c(0) };
        let (id, k) = self.ensure_cell_at(st, p, &idx)?;
        let place = p.cell(id);
        let v = match self.peek(st, &place) { Some(v) => v.clone(), None => return Err(Stop::Unsup("lost element".into())) };
        let mut s = (*self.get_seq(st, p)?).clone();
        s.segs.remove(k);
        // segments before (after) it are empty
        if back { for g in s.segs.drain(k..) { if let Seg::Run(c, _) = g { st.nm().assume_le0(&c); } } } else { for g in s.segs.drain(..k) { if let Seg::Run(c, _) = g { st.nm().assume_le0(&c); } } }
        self.set_seq(st, p, s)?;
        Ok(Some(v))
    }
}
