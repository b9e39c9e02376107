//! Intrinsics of the specification crate.
use crate::interp::*;
use crate::num::*;
use crate::seq::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{GenericArgsRef, Ty};
use std::rc::Rc;

impl<'tcx> Engine<'tcx> {
    fn deref_val(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>) -> R<'tcx, Val<'tcx>> { match v { Val::Ref(p) => { let p = (**p).clone(); self.read(st, &p) } v => Ok(v.clone()) } }
    fn lint(&mut self, v: &Val<'tcx>) -> R<'tcx, Lin> { self.leaf(v).ok_or_else(|| Stop::Unsup("specification expects an integer".into())) }
    /// the segments of a time set (by reference)
    fn set_segs(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>) -> R<'tcx, Rc<SeqV<'tcx>>> {
        let v = self.deref_val(st, v)?;
        match &v {
            Val::Agg(a) => match a.fields.first() { Some(Val::Seq(s)) => Ok(s.clone()), _ => Err(Stop::Unsup("time set representation".into())) },
            Val::Seq(s) => Ok(s.clone()),
            _ => Err(Stop::Unsup("time set representation".into())),
        }
    }
    /// A date of chrono: what its fields hold is unknown but for the nanoseconds, and the moment itself is kept beside them
    fn mk_date(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, secs: &Val<'tcx>, nanos: &Val<'tcx>) -> R<'tcx, Val<'tcx>> {
        let rustc_middle::ty::TyKind::Adt(a, _) = ty.kind() else { return Err(Stop::Unsup("date representation".into())) };
        let name = self.tcx.item_name(a.did()).to_string();
        let Some(f) = self.field_tys(ty, 0) else { return Err(Stop::Unsup("date representation".into())) };
        let mut v = vec![];
        for t in f {
            let t = self.norm(t);
            let n = match t.kind() { rustc_middle::ty::TyKind::Adt(a, _) => self.tcx.item_name(a.did()).to_string(), _ => String::new() };
            v.push(match n.as_str() {
                "NaiveDateTime" => self.mk_date(st, t, secs, nanos)?,
                "NaiveTime" => { let s = self.expand(st, self.tcx.types.u32); Val::agg(0, vec![s, nanos.clone()]) }
                _ => self.expand(st, t),
            });
        }
        if name == "NaiveDateTime" { v.push(secs.clone()) }
        Ok(Val::agg(0, v))
    }
    pub fn rt(&mut self, st: &mut State<'tcx>, d: DefId, gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], rty: Ty<'tcx>) -> R<'tcx, Model<'tcx>> {
        let name = self.tcx.item_name(d).to_string();
        let ok = |v: Val<'tcx>| -> R<'tcx, Model<'tcx>> { Ok(Model::Val(v)) };
        match name.as_str() {
            "any" => { let v = self.any_inv(st, rty)?; ok(v) }
            "any_raw" => { let v = self.expand(st, rty); ok(v) }
            "assume" => { if self.truth(st, &args[0])? { ok(Val::unit()) } else { Err(Stop::Dead) } }
            "check" => {
                let msg = match &args[1] { Val::Str(s) => s.to_string(), _ => "?".into() };
                let key = format!("{}: {}", self.root_name, msg);
                if !self.truth(st, &args[0])? {
                    *self.checks.entry(key).or_insert(0) += 1;
                    self.violation(st, &msg);
                    return Err(Stop::Dead);
                }
                *self.checks.entry(key).or_insert(0) += 1;
                ok(Val::unit())
            }
            "ticks" => { let v = self.deref_val(st, &args[0])?; let v = match v { Val::Top(t) => self.expand(st, t), v => v }; let l = self.lint(&v)?; ok(Val::Int(l)) }
            "mk" => { let l = self.lint(&args[0])?; match self.wrap_leaf(rty, l) { Some(v) => ok(v), None => Err(Stop::Unsup("mk".into())) } }
            "mk_interval" => { let (l, u) = (self.lint(&args[0])?, self.lint(&args[1])?); match self.mk_interval(rty, l, u) { Some(v) => ok(v), None => Err(Stop::Unsup("mk_interval".into())) } }
            "ghost" => {
                let (l, u) = (self.lint(&args[0])?, self.lint(&args[1])?);
                Rc::make_mut(&mut st.ghosts).push((l, u));
                ok(Val::unit())
            }
            "bounds" => {
                let v = self.deref_val(st, &args[0])?;
                let t = gargs.type_at(0);
                match self.interval_of(t, &v) { Some((l, u)) => ok(Val::agg(0, vec![Val::Int(l), Val::Int(u)])), None => Err(Stop::Unsup("bounds".into())) }
            }
            "raw_len" => { let s = self.set_segs(st, &args[0])?; ok(Val::Int(Self::segs_len(&s.segs))) }
            "is_canon" => {
                let s = self.set_segs(st, &args[0])?;
                let segs: Vec<Seg<'tcx>> = s.segs.iter().filter(|g| match g { Seg::Run(c, _) => !st.num.entails_le0(c), _ => true }).cloned().collect();
                if segs.is_empty() { return ok(Val::b(true)) }
                let r = matches!(self.fold_canon_shape(st, s.elem, &segs), Some((_, _, false)));
                // a single reversed run is increasing only if it has at most one element
                ok(Val::b(r))
            }
            "hits" => {
                let s = self.set_segs(st, &args[0])?;
                let gi = match self.lint(&args[1])?.konst() { Some(k) => k as usize, None => return Err(Stop::Unsup("ghost index".into())) };
                let (gl, gu) = st.ghosts[gi].clone();
                let mut best = NONE;
                for g in s.segs.iter() {
                    match g {
                        Seg::Cell(_, v) => {
                            let Some((l, u)) = self.interval_of(s.elem, v) else { return Err(Stop::Unsup("unknown interval".into())) };
                            let k = self.cell_hit(st, &l, &u, &gl, &gu)?; best = best.max(k)
                        }
                        Seg::Run(c, RunK::Canon { hits, .. }) => { if hits[gi] > 0 && !st.num.entails_le0(c) { best = best.max(hits[gi]) } }
                        Seg::Run(c, RunK::Any { .. }) => { if st.num.entails_le0(c) { continue } st.approx = Some("unordered summary".into()); let k = self.choose(st, 3)?; best = best.max(k as u8) }
                    }
                }
                ok(Val::k(best as i128))
            }
            "cut" => { st.cuts = 1; ok(Val::unit()) }
            "allow_panic" => { let b = self.truth(st, &args[0])?; st.panic_ok = b; ok(Val::unit()) }
            "any_graph" => {
                // a size and a list of that many squared cells, arbitrary values
                let (Some(n), Some(c)) = (self.lint(&args[0])?.konst(), self.lint(&args[1])?.konst()) else { return Err(Stop::Unsup("graph size".into())) };
                let Some(f) = self.field_tys(rty, 0) else { return Err(Stop::Unsup("graph representation".into())) };
                let mut v = vec![]; let (mut sized, mut filled) = (false, false);
                for t in f {
                    if !sized && int_range(t).is_some() { sized = true; v.push(Val::k(n)); continue }
                    let Some(e) = self.is_vec(t) else { return Err(Stop::Unsup("graph representation".into())) };
                    if filled { return Err(Stop::Unsup("graph representation".into())) }
                    filled = true;
                    let mut q = vec![];
                    for _ in 0..c { let x = self.any_inv(st, e)?; self.cell_ctr += 1; q.push(Seg::Cell(self.cell_ctr, x)) }
                    v.push(Val::Seq(Rc::new(SeqV { elem: e, segs: q })));
                }
                if !(sized && filled) { return Err(Stop::Unsup("graph representation".into())) }
                st.unroll = 5000;
                ok(Val::agg(0, v))
            }
            "any_graph_any_size" => {
                // any number of instants and that number of cells, squared, of arbitrary values
                let Some(f) = self.field_tys(rty, 0) else { return Err(Stop::Unsup("graph representation".into())) };
                let n = if self.bounded { Lin::c(self.choose(st, self.small as u32 + 1)? as i128) } else { st.nm().fresh(0, u32::MAX as i128) };
                let cells = self.mul(st, &n, &n);
                let mut v = vec![];
                for t in f {
                    if int_range(t).is_some() { v.push(Val::Int(n.clone())); continue }
                    let Some(e) = self.is_vec(t) else { return Err(Stop::Unsup("graph representation".into())) };
                    v.push(Val::Seq(Rc::new(SeqV { elem: e, segs: vec![Seg::Run(cells.clone(), RunK::Any { inv: true })] })));
                }
                ok(Val::agg(0, v))
            }
            "mk_date" => { let v = self.mk_date(st, rty, &args[0], &args[1])?; ok(v) }
            "mk_scheduler" => {
                let Some(f) = self.field_tys(rty, 0) else { return Err(Stop::Unsup("scheduler representation".into())) };
                let Val::Seq(q) = &args[1] else { return Err(Stop::Unsup("scheduler sets".into())) };
                let mut v = vec![];
                for t in f {
                    if t.is_ref() { v.push(args[0].clone()); continue }
                    let t = self.norm(t);
                    if self.is_vec(t).is_some() { v.push(Val::Seq(q.clone())); continue }
                    if t.boxed_ty().is_some_and(|t| t.is_slice()) {
                        let n = Self::segs_len(&q.segs);
                        let p = self.new_alloc(st, Val::Seq(q.clone()));
                        v.push(Val::Slice(Rc::new(SliceV { p, start: Lin::c(0), len: n })));
                        continue
                    }
                    return Err(Stop::Unsup("scheduler representation".into()))
                }
                ok(Val::agg(0, v))
            }
            "is_variant" => {
                let v = self.deref_val(st, &args[0])?;
                let name = match &args[1] { Val::Str(s) => s.to_string(), _ => return Err(Stop::Unsup("variant name".into())) };
                let t = gargs.type_at(0);
                let rustc_middle::ty::TyKind::Adt(d, _) = t.kind() else { return Err(Stop::Unsup("variant of what".into())) };
                let Some(i) = d.variants().iter().position(|x| x.name.as_str() == name) else { return Err(Stop::Unsup(format!("no variant {}", name))) };
                let v = match v { Val::Top(t) => self.expand(st, t), v => v };
                match v { Val::Agg(a) => ok(Val::b(a.variant as usize == i)), _ => Err(Stop::Unsup("variant".into())) }
            }
            "unroll" => { st.unroll = 100; ok(Val::unit()) }
            "show" => { if self.verbose > 0 { eprintln!("show {:?}", args); self.dump(st) } ok(Val::unit()) }
            _ => Err(Stop::Unsup(format!("specification intrinsic {}", name))),
        }
    }
}
