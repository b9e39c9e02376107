//! The abstract interpreter: MIR statements and terminators over abstract states.
use crate::num::*;
use crate::val::*;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const MAXT: i128 = i64::MAX as i128;

#[derive(Clone, Debug)]
pub struct Event { pub key: String, pub msg: String, pub loc: String, pub func: String, pub fnloc: String, pub trace: Vec<String>, pub approx: Option<String>, pub lossy: bool }

pub struct Engine<'tcx> {
    /// loops are followed turn by turn, on lists of at most `small` elements, without merging states
    pub bounded: bool,
    pub small: i128,
    pub memory: u64,
    pub tcx: TyCtxt<'tcx>,
    pub env: ty::TypingEnv<'tcx>,
    pub fns: FxHashMap<Instance<'tcx>, Rc<FnInfo<'tcx>>>,
    pub work: std::collections::BinaryHeap<Pending<'tcx>>,
    pub versions: Vec<u32>,
    pub seq: u64,
    pub heads: HashMap<Vec<u8>, Vec<crate::head::Entry>>,
    pub events: BTreeMap<String, Event>,
    pub checks: BTreeMap<String, u64>,
    pub visited: BTreeSet<String>,
    pub havocs: BTreeMap<String, u64>,
    pub stubs: HashMap<String, DefId>,
    pub paths: FxHashMap<DefId, Rc<str>>,
    pub root_name: String,
    pub nstates: u64,
    pub nsteps: u64,
    pub nheads: u64,
    pub nwiden: u64,
    pub npanic: u64,
    pub finished: u64,
    pub limit: u64,
    pub deadline: std::time::Instant,
    pub verbose: u32,
    pub cell_ctr: u32,
    pub alloc_ctr: u32,
    pub const_cache: FxHashMap<(mir::ConstValue, Ty<'tcx>), Val<'tcx>>,
    pub quot: HashMap<(Lin, Lin), Sym>,
    pub spec_crate: rustc_span::def_id::CrateNum,
    pub repo_crate: Option<rustc_span::def_id::CrateNum>,
}

pub fn int_range(ty: Ty<'_>) -> Option<(i128, i128)> {
    Some(match ty.kind() {
        TyKind::Bool => (0, 1),
        TyKind::Char => (0, 0x10FFFF),
        TyKind::Int(i) => { let b = i.bit_width().unwrap_or(64); if b == 128 { (i128::MIN / 8, i128::MAX / 8 - 1) } else { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } }
        TyKind::Uint(u) => { let b = u.bit_width().unwrap_or(64); if b == 128 { (0, i128::MAX / 8 - 1) } else { (0, (1i128 << b) - 1) } }
        TyKind::Pat(b, _) => return int_range(*b),
        _ => return None,
    })
}
pub fn is128(ty: Ty<'_>) -> bool { matches!(ty.kind(), TyKind::Int(ty::IntTy::I128) | TyKind::Uint(ty::UintTy::U128)) }

impl<'tcx> Engine<'tcx> {
    pub fn path(&mut self, d: DefId) -> Rc<str> {
        if let Some(p) = self.paths.get(&d) { return p.clone() }
        let s = ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        let p: Rc<str> = s.into();
        self.paths.insert(d, p.clone());
        p
    }
    pub fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, t: T) -> T {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    pub fn fninfo(&mut self, inst: Instance<'tcx>) -> Option<Rc<FnInfo<'tcx>>> {
        if let Some(f) = self.fns.get(&inst) { return Some(f.clone()) }
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(_) => return None,
            InstanceKind::Item(d) => { if !tcx.is_mir_available(d) { return None } if tcx.is_foreign_item(d) { return None } }
            _ => {}
        }
        let body = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        let name = ty::print::with_no_trimmed_paths!(format!("{}", inst));
        let krate = inst.def_id().krate;
        let kind = if krate == self.spec_crate { FnKind::Spec } else if Some(krate) == self.repo_crate { FnKind::Repo } else { FnKind::Other };
        let heads = crate::flow::loop_heads(&body);
        let order = crate::flow::order(&body, &heads);
        let live_in = crate::flow::liveness(&body);
        let f = Rc::new(FnInfo { inst, id: self.fns.len(), body, name, kind, heads, order, live_in });
        if kind == FnKind::Repo { self.visited.insert(f.name.clone()); }
        self.fns.insert(inst, f.clone());
        Some(f)
    }

    // ---------- value construction ----------
    pub fn transparent(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            TyKind::Adt(d, _) => {
                if d.is_box() { return true }
                if d.did().krate == self.spec_crate || Some(d.did().krate) == self.repo_crate { return false }
                matches!(self.tcx.item_name(d.did()).as_str(), "NonNull" | "Unique" | "ManuallyDrop" | "MaybeUninit" | "MaybeDangling" | "UnsafeCell" | "Cell")
            }
            _ => false,
        }
    }
    pub fn adt_name(&self, ty: Ty<'tcx>) -> Option<String> {
        match ty.kind() { TyKind::Adt(d, _) => Some(self.tcx.item_name(d.did()).to_string()), _ => None }
    }
    pub fn is_vec(&self, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match ty.kind() {
            TyKind::Adt(d, a) if self.tcx.is_diagnostic_item(rustc_span::sym::Vec, d.did()) => Some(a.type_at(0)),
            _ => None,
        }
    }
    /// Some(time point type) if ty is the crate's interval type
    pub fn is_interval(&self, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match ty.kind() {
            TyKind::Adt(d, a) if Some(d.did().krate) == self.repo_crate && self.tcx.item_name(d.did()).as_str() == "TimeInterval" => Some(a.type_at(0)),
            _ => None,
        }
    }
    pub fn is_timeset(&self, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match ty.kind() {
            TyKind::Adt(d, a) if Some(d.did().krate) == self.repo_crate && self.tcx.item_name(d.did()).as_str() == "TimeSet" => Some(a.type_at(0)),
            _ => None,
        }
    }
    pub fn field_tys(&self, ty: Ty<'tcx>, variant: u32) -> Option<Vec<Ty<'tcx>>> {
        let tcx = self.tcx;
        match ty.kind() {
            TyKind::Adt(d, args) => {
                let v = d.variants().get(VariantIdx::from_u32(variant))?;
                Some(v.fields.iter().map(|f| self.norm(f.ty(tcx, args).skip_norm_wip())).collect())
            }
            TyKind::Tuple(ts) => Some(ts.iter().collect()),
            TyKind::Closure(_, a) => Some(a.as_closure().upvar_tys().iter().collect()),
            _ => None,
        }
    }
    /// builds a value of a single-integer newtype (TimeValue, Timestamp, i64...) from its leaf
    pub fn wrap_leaf(&self, ty: Ty<'tcx>, l: Lin) -> Option<Val<'tcx>> {
        if int_range(ty).is_some() { return Some(Val::Int(l)) }
        match ty.kind() {
            TyKind::Adt(d, _) if d.is_struct() => {
                let f = self.field_tys(ty, 0)?;
                let mut vals = vec![]; let mut done = false;
                for t in f {
                    if !done { if let Some(v) = self.wrap_leaf(t, l.clone()) { vals.push(v); done = true; continue } }
                    if self.is_zst(t) { vals.push(self.zst(t)) } else { return None }
                }
                if done { Some(Val::agg(0, vals)) } else { None }
            }
            _ => None,
        }
    }
    pub fn is_zst(&self, ty: Ty<'tcx>) -> bool {
        match self.tcx.layout_of(self.env.as_query_input(ty)) { Ok(l) => l.is_zst(), _ => false }
    }
    pub fn zst(&self, ty: Ty<'tcx>) -> Val<'tcx> {
        match ty.kind() {
            TyKind::Adt(d, _) if d.is_struct() => { let f = self.field_tys(ty, 0).unwrap_or_default(); if self.transparent(ty) { return f.first().map(|t| self.zst(*t)).unwrap_or(Val::unit()) } Val::agg(0, f.into_iter().map(|t| self.zst(t)).collect()) }
            TyKind::Tuple(ts) => Val::agg(0, ts.iter().map(|t| self.zst(t)).collect()),
            TyKind::Array(t, _) => Val::Seq(Rc::new(SeqV { elem: *t, segs: vec![] })),
            _ => Val::unit(),
        }
    }
    /// the single integer leaf of a newtype value
    pub fn leaf(&self, v: &Val<'tcx>) -> Option<Lin> {
        match v {
            Val::Int(l) => Some(l.clone()),
            Val::Agg(a) => { let mut r = None; for f in &a.fields { if let Some(l) = self.leaf(f) { if r.is_some() { return None } r = Some(l) } else if !matches!(f, Val::Agg(x) if x.fields.is_empty()) { return None } } r }
            _ => None,
        }
    }
    /// (lower, upper) leaves of an interval value
    pub fn interval_fields(&self, ty: Ty<'tcx>) -> Option<(usize, usize)> {
        match ty.kind() {
            TyKind::Adt(d, _) if d.is_struct() => {
                let v = d.non_enum_variant();
                let lo = v.fields.iter().position(|f| f.name.as_str() == "lower")?;
                let hi = v.fields.iter().position(|f| f.name.as_str() == "upper")?;
                Some((lo, hi))
            }
            _ => None,
        }
    }
    pub fn interval_of(&self, ty: Ty<'tcx>, v: &Val<'tcx>) -> Option<(Lin, Lin)> {
        let (a, b) = self.interval_fields(ty)?;
        match v { Val::Agg(g) => Some((self.leaf(g.fields.get(a)?)?, self.leaf(g.fields.get(b)?)?)), _ => None }
    }
    pub fn mk_interval(&self, ty: Ty<'tcx>, l: Lin, u: Lin) -> Option<Val<'tcx>> {
        let t = self.is_interval(ty)?;
        let (a, b) = self.interval_fields(ty)?;
        let n = self.field_tys(ty, 0)?.len();
        let mut f = vec![Val::unit(); n];
        f[a] = self.wrap_leaf(t, l)?; f[b] = self.wrap_leaf(t, u)?;
        Some(Val::agg(0, f))
    }
    /// expand a Top value one level
    pub fn expand(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>) -> Val<'tcx> {
        if let Some((lo, hi)) = int_range(ty) { return Val::Int(st.nm().fresh(lo, hi)) }
        if self.transparent(ty) { if let Some(f) = self.field_tys(ty, if ty.is_union() { 1 } else { 0 }) { if !ty.is_box() { if let Some(t) = f.last() { return Val::Top(*t) } } else { let TyKind::Adt(_, a) = ty.kind() else { unreachable!() }; let t = a.type_at(0); return self.alloc_ref(st, t) } } }
        if let Some(t) = self.is_vec(ty) { let n = st.nm().fresh(0, if self.bounded { self.small } else { (1i128 << 63) - 1 }); return Val::Seq(Rc::new(SeqV { elem: t, segs: vec![Seg::Run(n, RunK::Any { inv: false })] })) }
        match ty.kind() {
            TyKind::Adt(d, _) if d.is_struct() => { let f = self.field_tys(ty, 0).unwrap(); Val::agg(0, f.into_iter().map(Val::Top).collect()) }
            TyKind::Tuple(_) | TyKind::Closure(..) => { let f = self.field_tys(ty, 0).unwrap(); Val::agg(0, f.into_iter().map(Val::Top).collect()) }
            TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => self.alloc_ref(st, *t),
            TyKind::FnDef(..) => Val::unit(),
            TyKind::Array(t, _) => { let n = self.array_len(ty).unwrap_or(0); let segs = (0..n).map(|_| { self.cell_ctr += 1; Seg::Cell(self.cell_ctr, Val::Top(*t)) }).collect(); Val::Seq(Rc::new(SeqV { elem: *t, segs })) }
            _ => Val::Top(ty),
        }
    }
    pub fn array_len(&self, ty: Ty<'tcx>) -> Option<u64> {
        match ty.kind() { TyKind::Array(_, n) => n.try_to_target_usize(self.tcx), _ => None }
    }
    pub fn new_alloc(&mut self, st: &mut State<'tcx>, v: Val<'tcx>) -> PlaceV {
        self.alloc_ctr += 1;
        let id = self.alloc_ctr;
        Rc::make_mut(&mut st.heap).insert(id, v);
        PlaceV { root: Root::Alloc(id), path: vec![] }
    }
    fn alloc_ref(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>) -> Val<'tcx> {
        match t.kind() {
            TyKind::Slice(e) => {
                let n = st.nm().fresh(0, if self.bounded { self.small } else { (1i128 << 63) - 1 });
                let p = self.new_alloc(st, Val::Seq(Rc::new(SeqV { elem: *e, segs: vec![Seg::Run(n.clone(), RunK::Any { inv: false })] })));
                Val::Slice(Rc::new(SliceV { p, start: Lin::c(0), len: n }))
            }
            TyKind::Str | TyKind::Dynamic(..) => Val::Str("?".into()),
            _ => { let p = self.new_alloc(st, Val::Top(t)); Val::rf(p) }
        }
    }

    // ---------- decisions ----------
    fn note(&self, st: &mut State<'tcx>, what: &'static str) {
        if st.top().f.kind == FnKind::Other && self.verbose != 8 {
            return;
        }
        let span = st.span();
        let depth = st.trace.as_ref().map_or(0, |t| t.depth) + 1;
        st.trace = Some(Rc::new(TraceNode { span, what, prev: st.trace.take(), depth }));
    }
    /// decide lin <= 0
    pub fn decide(&mut self, st: &mut State<'tcx>, l: &Lin) -> R<'tcx, bool> {
        if st.num.entails_le0(l) { return Ok(true) }
        let no = l.neg().addk(1);
        if st.num.entails_le0(&no) { return Ok(false) }
        let mut a = st.clone(); let mut b = st.clone();
        let mut v = vec![];
        let nl = st.num.has_monos();
        let (t, e): (&'static str, &'static str) = if self.verbose == 8 { (Box::leak(format!("{:?}<=0", l).into_boxed_str()), Box::leak(format!("{:?}<=0", no).into_boxed_str())) } else { ("then", "else") };
        if a.nm().assume_le0(l) && !(nl && !a.nm().refresh()) { self.note(&mut a, t); v.push(a) }
        let can = !v.is_empty();
        if b.nm().assume_le0(&no) && !(nl && !b.nm().refresh()) { self.note(&mut b, e); v.push(b) }
        if v.len() == 1 {
            // one side infeasible: commit in place
            let only = v.pop().unwrap();
            st.num = only.num;
            return Ok(can)
        }
        if v.is_empty() { return Err(Stop::Dead) }
        Err(Stop::Fork(v))
    }
    pub fn le(&mut self, st: &mut State<'tcx>, a: &Lin, b: &Lin) -> R<'tcx, bool> { self.decide(st, &a.sub(b)) }
    pub fn lt(&mut self, st: &mut State<'tcx>, a: &Lin, b: &Lin) -> R<'tcx, bool> { self.decide(st, &a.sub(b).addk(1)) }
    pub fn eq(&mut self, st: &mut State<'tcx>, a: &Lin, b: &Lin) -> R<'tcx, bool> {
        let d = a.sub(b);
        if let Some(c) = d.konst() { return Ok(c == 0) }
        if !self.decide(st, &d)? { return Ok(false) }
        self.decide(st, &d.neg())
    }
    pub fn assume(&mut self, st: &mut State<'tcx>, l: &Lin) -> R<'tcx, ()> { if st.nm().assume_le0(l) { Ok(()) } else { Err(Stop::Dead) } }
    pub fn truth(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>) -> R<'tcx, bool> {
        match v {
            Val::Int(l) => { if let Some(c) = l.konst() { return Ok(c != 0) } Ok(!self.decide(st, l)?) }
            Val::Top(_) => { st.approx.get_or_insert("branch on an unmodelled boolean".into()); let k = self.choose(st, 2)?; Ok(k == 1) }
            _ => Err(Stop::Unsup(format!("branch on {:?}", v))),
        }
    }
    pub fn fork<T>(&mut self, v: Vec<State<'tcx>>) -> R<'tcx, T> { if v.is_empty() { Err(Stop::Dead) } else { Err(Stop::Fork(v)) } }

    // ---------- places ----------
    pub fn root_mut<'a>(&self, st: &'a mut State<'tcx>, r: Root) -> Option<&'a mut Val<'tcx>> {
        match r {
            Root::Local(d, l) => { let f = st.frames.get_mut(d as usize)?; Rc::make_mut(f).locals.get_mut(l as usize) }
            Root::Alloc(a) => Rc::make_mut(&mut st.heap).get_mut(&a),
        }
    }
    pub fn root<'a>(&self, st: &'a State<'tcx>, r: Root) -> Option<&'a Val<'tcx>> {
        match r {
            Root::Local(d, l) => st.frames.get(d as usize)?.locals.get(l as usize),
            Root::Alloc(a) => st.heap.get(&a),
        }
    }
    fn step_ref<'a>(v: &'a Val<'tcx>, e: PE) -> Option<&'a Val<'tcx>> {
        match (v, e) {
            (Val::Agg(a), PE::F(i)) => a.fields.get(i as usize),
            (Val::Seq(s), PE::Cell(id)) => s.segs.iter().find_map(|g| match g { Seg::Cell(c, v) if *c == id => Some(v), _ => None }),
            (Val::It(s), PE::Cell(id)) => match &**s { ItV::Own(s) => s.segs.iter().find_map(|g| match g { Seg::Cell(c, v) if *c == id => Some(v), _ => None }), _ => None },
            _ => None,
        }
    }
    pub fn peek<'a>(&self, st: &'a State<'tcx>, p: &PlaceV) -> Option<&'a Val<'tcx>> {
        let mut v = self.root(st, p.root)?;
        for e in &p.path { v = Self::step_ref(v, *e)? }
        Some(v)
    }
    /// mutable access, expanding unknown aggregates on the way
    pub fn lval(&mut self, st: &mut State<'tcx>, p: &PlaceV) -> R<'tcx, *mut Val<'tcx>> {
        let stp: *mut State<'tcx> = st;
        let mut v: *mut Val<'tcx> = match self.root_mut(unsafe { &mut *stp }, p.root) { Some(v) => v, None => return Err(Stop::Unsup(format!("dangling place {:?}", p))) };
        for e in &p.path {
            // SAFETY: v points into st, which is only touched through nm() (the numeric store) meanwhile
            unsafe {
                if let Val::Top(t) = &*v { let t = *t; let n = self.expand(&mut *stp, t); *v = n; }
                if let Val::Uninit = &*v { if let PE::F(i) = e { *v = Val::agg(0, vec![Val::Uninit; *i as usize + 1]); } }
                match (&mut *v, e) {
                    (Val::Agg(a), PE::F(i)) => {
                        let a = Rc::make_mut(a);
                        while a.fields.len() <= *i as usize && a.fields.iter().all(|f| matches!(f, Val::Uninit)) { a.fields.push(Val::Uninit) }
                        match a.fields.get_mut(*i as usize) { Some(x) => v = x, None => return Err(Stop::Unsup(format!("field {} of {:?}", i, a))) }
                    }
                    (Val::Seq(s), PE::Cell(id)) => {
                        let s = Rc::make_mut(s);
                        match s.segs.iter_mut().find_map(|g| match g { Seg::Cell(c, v) if c == id => Some(v), _ => None }) { Some(x) => v = x, None => return Err(Stop::Unsup("lost vector cell".into())) }
                    }
                    (Val::It(i), PE::Cell(id)) => {
                        match Rc::make_mut(i) {
                            ItV::Own(s) => match s.segs.iter_mut().find_map(|g| match g { Seg::Cell(c, v) if c == id => Some(v), _ => None }) { Some(x) => v = x, None => return Err(Stop::Unsup("lost iterator cell".into())) },
                            _ => return Err(Stop::Unsup("cell of a borrowed iterator".into())),
                        }
                    }
                    (x, e) => return Err(Stop::Unsup(format!("projection {:?} on {:?}", e, x))),
                }
            }
        }
        Ok(v)
    }
    pub fn read(&mut self, st: &mut State<'tcx>, p: &PlaceV) -> R<'tcx, Val<'tcx>> {
        if let Some(v) = self.peek(st, p) { if !matches!(v, Val::Top(_)) { return Ok(v.clone()) } }
        let v = self.lval(st, p)?;
        unsafe {
            if let Val::Top(t) = &*v { let t = *t; let n = self.expand(st, t); *self.lval(st, p)? = n.clone(); return Ok(n) }
            Ok((*v).clone())
        }
    }
    pub fn write(&mut self, st: &mut State<'tcx>, p: &PlaceV, x: Val<'tcx>) -> R<'tcx, ()> {
        let v = self.lval(st, p)?;
        unsafe { *v = x }
        Ok(())
    }
    pub fn local_place(&self, st: &State<'tcx>, l: Local) -> PlaceV { PlaceV { root: Root::Local(st.depth(), l.as_u32()), path: vec![] } }

    pub fn eval_place(&mut self, st: &mut State<'tcx>, place: &Place<'tcx>) -> R<'tcx, (Loc, Ty<'tcx>)> {
        let f = st.top().f.clone();
        let mut ty = f.body.local_decls[place.local].ty;
        let mut loc = Loc::P(self.local_place(st, place.local));
        let mut pty = mir::PlaceTy::from_ty(ty);
        for e in place.projection.iter() {
            let base_ty = ty;
            pty = pty.projection_ty(self.tcx, e);
            ty = self.norm(pty.ty);
            match e {
                ProjectionElem::Deref => {
                    let v = match &loc { Loc::P(p) => { let p = p.clone(); self.read(st, &p)? } Loc::W(_) => return Err(Stop::Unsup("deref of slice place".into())) };
                    loc = match v {
                        Val::Ref(p) => Loc::P((*p).clone()),
                        Val::Slice(s) => Loc::W((*s).clone()),
                        Val::Str(_) => { let p = self.new_alloc(st, v.clone()); Loc::P(p) }
                        v => return Err(Stop::Unsup(format!("deref of {:?}", v))),
                    }
                }
                ProjectionElem::Field(i, _) => {
                    if self.transparent(base_ty) { continue }
                    match &mut loc { Loc::P(p) => {
                        // a field of a pointer-like library type whose content we model directly
                        if let Some(Val::Ref(_) | Val::Slice(_)) = self.peek(st, p) { continue }
                        p.path.push(PE::F(i.as_u32())) }
                        Loc::W(_) => return Err(Stop::Unsup("field of a slice".into())) }
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                ProjectionElem::PhantomDeref => {}
                ProjectionElem::Index(l) => {
                    let lp = self.local_place(st, l);
                    let Val::Int(i) = self.read(st, &lp)? else { return Err(Stop::Unsup("index".into())) };
                    loc = self.index(st, loc, i)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if from_end { let n = self.loc_len(st, &loc)?; n.addk(-(offset as i128)) } else { Lin::c(offset as i128) };
                    loc = self.index(st, loc, i)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.loc_len(st, &loc)?;
                    let s = match loc { Loc::W(s) => s, Loc::P(p) => SliceV { p, start: Lin::c(0), len: n.clone() } };
                    let len = if from_end { n.addk(-(from as i128) - to as i128) } else { Lin::c(to as i128 - from as i128) };
                    loc = Loc::W(SliceV { p: s.p, start: s.start.addk(from as i128), len });
                }
            }
        }
        Ok((loc, ty))
    }
    pub fn loc_len(&mut self, st: &mut State<'tcx>, loc: &Loc) -> R<'tcx, Lin> {
        match loc { Loc::W(s) => Ok(s.len.clone()), Loc::P(p) => self.seq_len(st, p) }
    }
    fn index(&mut self, st: &mut State<'tcx>, loc: Loc, i: Lin) -> R<'tcx, Loc> {
        let (p, off) = match loc { Loc::W(s) => (s.p, s.start.add(&i)), Loc::P(p) => (p, i) };
        let c = self.ensure_cell(st, &p, &off)?;
        Ok(Loc::P(c))
    }
    pub fn place_p(&mut self, st: &mut State<'tcx>, place: &Place<'tcx>) -> R<'tcx, (PlaceV, Ty<'tcx>)> {
        match self.eval_place(st, place)? { (Loc::P(p), t) => Ok((p, t)), _ => Err(Stop::Unsup("unsized place".into())) }
    }
    pub fn assign(&mut self, st: &mut State<'tcx>, place: &Place<'tcx>, v: Val<'tcx>) -> R<'tcx, ()> {
        let (p, _) = self.place_p(st, place)?;
        self.write(st, &p, v)
    }

    // ---------- operands & constants ----------
    pub fn op_ty(&self, st: &State<'tcx>, o: &Operand<'tcx>) -> Ty<'tcx> { self.norm(o.ty(&st.top().f.body.local_decls, self.tcx)) }
    pub fn operand(&mut self, st: &mut State<'tcx>, o: &Operand<'tcx>) -> R<'tcx, Val<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let (l, _) = self.eval_place(st, p)?;
                match l { Loc::P(p) => self.read(st, &p), Loc::W(_) => Err(Stop::Unsup("copy of unsized".into())) }
            }
            Operand::Constant(c) => {
                let ty = self.norm(c.const_.ty());
                if let TyKind::FnDef(..) = ty.kind() { return Ok(Val::unit()) }
                if self.verbose == 9 { eprintln!("const {:?} at {:?}", c.const_, c.span); }
                if let mir::Const::Unevaluated(u, _) = c.const_ { if let Some(p) = u.promoted { if self.tcx.promoted_mir(u.def).get(p).is_none() { return Err(Stop::Unsup(format!("promoted constant of {}", self.path(u.def)))) } } }
                match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(cv) => self.const_val(st, cv, ty),
                    Err(_) => Err(Stop::Panic("constant evaluation failed".into())),
                }
            }
            Operand::RuntimeChecks(rc) => Ok(Val::b(match rc { RuntimeChecks::OverflowChecks => true, _ => false })),
        }
    }
    pub fn const_val(&mut self, st: &mut State<'tcx>, cv: mir::ConstValue, ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        match cv {
            mir::ConstValue::ZeroSized => Ok(self.zst(ty)),
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                let bytes = bits.to_le_bytes();
                self.decode(st, &bytes[..size.bytes() as usize], None, 0, ty)
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.decode_ptr(st, prov.alloc_id(), off.bytes(), None, ty)
            }
            mir::ConstValue::Slice { alloc_id, meta } => self.decode_ptr(st, alloc_id, 0, Some(meta), ty),
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let a = a.inner();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                self.decode(st, &bytes, Some(a), offset.bytes(), ty)
            }
        }
    }
    fn decode_ptr(&mut self, st: &mut State<'tcx>, id: mir::interpret::AllocId, off: u64, meta: Option<u64>, ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let inner = match ty.kind() { TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => *t, _ => return Ok(Val::Top(ty)) };
        match self.tcx.try_get_global_alloc(id) {
            Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                match inner.kind() {
                    TyKind::Str => { let n = meta.unwrap_or(0) as usize; let s = String::from_utf8_lossy(&bytes[off as usize..off as usize + n]).to_string(); Ok(Val::Str(s.into())) }
                    TyKind::Slice(t) => {
                        let n = meta.unwrap_or(0);
                        if n > 64 { return Ok(Val::Top(ty)) }
                        let sz = self.tcx.layout_of(self.env.as_query_input(*t)).map(|l| l.size.bytes()).unwrap_or(0);
                        let mut segs = vec![];
                        for k in 0..n { let v = self.decode(st, &bytes, Some(a), off + k * sz, *t)?; self.cell_ctr += 1; segs.push(Seg::Cell(self.cell_ctr, v)) }
                        let p = self.new_alloc(st, Val::Seq(Rc::new(SeqV { elem: *t, segs })));
                        Ok(Val::Slice(Rc::new(SliceV { p, start: Lin::c(0), len: Lin::c(n as i128) })))
                    }
                    _ => { let v = self.decode(st, &bytes, Some(a), off, inner)?; let p = self.new_alloc(st, v); Ok(Val::rf(p)) }
                }
            }
            _ => Ok(Val::Top(ty)),
        }
    }
    fn decode(&mut self, st: &mut State<'tcx>, bytes: &[u8], a: Option<&mir::interpret::Allocation>, off: u64, ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let layout = match self.tcx.layout_of(self.env.as_query_input(ty)) { Ok(l) => l, Err(_) => return Ok(Val::Top(ty)) };
        if layout.is_zst() { return Ok(self.zst(ty)) }
        let rd = |o: u64, n: u64| -> i128 { let mut v = 0u128; for k in 0..n { v |= (bytes.get((o + k) as usize).copied().unwrap_or(0) as u128) << (8 * k) } v as i128 };
        if let Some((lo, _)) = int_range(ty) {
            let n = layout.size.bytes();
            let mut v = rd(off, n);
            if lo < 0 && n < 16 && v >> (8 * n - 1) & 1 == 1 { v -= 1i128 << (8 * n) }
            return Ok(Val::k(v));
        }
        match ty.kind() {
            TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => {
                if let Some(a) = a { if let Some(p) = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)) {
                    let rel = rd(off, 8) as u64;
                    let meta = if matches!(t.kind(), TyKind::Str | TyKind::Slice(_)) { Some(rd(off + 8, 8) as u64) } else { None };
                    return self.decode_ptr(st, p.alloc_id(), rel, meta, ty);
                } }
                Ok(Val::Top(ty))
            }
            TyKind::Array(t, _) => {
                let n = self.array_len(ty).unwrap_or(0);
                if n > 64 { return Ok(Val::Top(ty)) }
                let sz = self.tcx.layout_of(self.env.as_query_input(*t)).map(|l| l.size.bytes()).unwrap_or(0);
                let mut segs = vec![];
                for k in 0..n { let v = self.decode(st, bytes, a, off + k * sz, *t)?; self.cell_ctr += 1; segs.push(Seg::Cell(self.cell_ctr, v)) }
                Ok(Val::Seq(Rc::new(SeqV { elem: *t, segs })))
            }
            TyKind::Adt(d, _) if d.is_struct() && !self.is_vec(ty).is_some() => {
                let ft = self.field_tys(ty, 0).unwrap();
                let mut v = vec![];
                for (i, t) in ft.iter().enumerate() { v.push(self.decode(st, bytes, a, off + layout.fields.offset(i).bytes(), *t)?) }
                if self.transparent(ty) { return Ok(v.into_iter().next().unwrap_or(Val::unit())) }
                Ok(Val::agg(0, v))
            }
            TyKind::Tuple(ts) => {
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() { v.push(self.decode(st, bytes, a, off + layout.fields.offset(i).bytes(), t)?) }
                Ok(Val::agg(0, v))
            }
            TyKind::Adt(d, _) if d.is_enum() => {
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &layout.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let n = tag.size(&self.tcx).bytes();
                        let to = off + layout.fields.offset(tag_field.as_usize()).bytes();
                        if let Some(a) = a { if a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(to)).is_some() { if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding { return self.decode_variant(st, bytes, Some(a), off, ty, *untagged_variant, layout) } } }
                        let tagv = rd(to, n) as u128;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for (i, dv) in d.discriminants(self.tcx) { let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 }; if dv.val & m == tagv { r = Some(i) } }
                                match r { Some(i) => i, None => return Ok(Val::Top(ty)) }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let rel = tagv.wrapping_sub(*niche_start) & m;
                                let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                if rel <= cnt { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                            }
                        }
                    }
                    _ => return Ok(Val::Top(ty)),
                };
                self.decode_variant(st, bytes, a, off, ty, vi, layout)
            }
            _ => Ok(Val::Top(ty)),
        }
    }
    fn decode_variant(&mut self, st: &mut State<'tcx>, bytes: &[u8], a: Option<&mir::interpret::Allocation>, off: u64, ty: Ty<'tcx>, vi: VariantIdx, layout: ty::layout::TyAndLayout<'tcx>) -> R<'tcx, Val<'tcx>> {
        let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
        let vl = layout.for_variant(&cx, vi);
        let ft = self.field_tys(ty, vi.as_u32()).unwrap();
        let mut v = vec![];
        for (i, t) in ft.iter().enumerate() { v.push(self.decode(st, bytes, a, off + vl.fields.offset(i).bytes(), *t)?) }
        Ok(Val::agg(vi.as_u32(), v))
    }

    // ---------- arithmetic ----------
    pub fn mul(&mut self, st: &mut State<'tcx>, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = st.num.value(a) { return b.scale(k) }
        if let Some(k) = st.num.value(b) { return a.scale(k) }
        let (r, monos) = a.mul_terms(b);
        for m in monos { self.mono_facts(st, m) }
        r
    }
    fn mono_facts(&mut self, st: &mut State<'tcx>, m: Sym) {
        if st.num.row(m).is_some() { return }
        let f = factors(m);
        // bounds: product of the interval of the first factor and that of the rest
        let a = f[0]; let rest = mono(f[1..].to_vec());
        if f.len() > 2 { self.mono_facts(st, rest) }
        let (al, ah) = st.num.bounds_sym(a); let (bl, bh) = st.num.bounds_sym(rest);
        let mut lo = -INF; let mut hi = INF;
        if al > -INF && ah < INF && bl > -INF && bh < INF {
            let c = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
            lo = (*c.iter().min().unwrap()).max(-INF); hi = (*c.iter().max().unwrap()).min(INF);
        } else if al >= 0 && bl >= 0 { lo = al.saturating_mul(bl) }
        if f.len() == 2 && f[0] == f[1] && lo < 0 { lo = 0 }
        let n = st.nm();
        n.insert(m, lo, hi);
        if al >= 1 && bl >= 0 { n.assume_le0(&Lin::s(rest).sub(&Lin::s(m))); }
        if bl >= 1 && al >= 0 && a != rest { n.assume_le0(&Lin::s(a).sub(&Lin::s(m))); }
    }
    /// truncated division; d must be provably nonzero
    pub fn div(&mut self, st: &mut State<'tcx>, x: &Lin, d: &Lin) -> R<'tcx, Lin> {
        if let (Some(a), Some(b)) = (st.num.value(x), st.num.value(d)) { if b != 0 { return Ok(Lin::c(a / b)) } }
        if st.num.value(d) == Some(1) { return Ok(x.clone()) }
        if !self.decide(st, &Lin::c(1).sub(d))? { // d <= 0 -> negative
            if st.num.value(d) == Some(-1) { return Ok(x.neg()) }
            return Ok(self.div(st, x, &d.neg())?.neg());
        }
        if !self.decide(st, &x.neg())? { return Ok(self.div(st, &x.neg(), d)?.neg()) }
        // x >= 0, d >= 1
        if let Some(k) = st.num.value(d) { if x.c % k == 0 && x.t.iter().all(|t| t.1 % k == 0) { return Ok(Lin { c: x.c / k, t: x.t.iter().map(|t| (t.0, t.1 / k)).collect() }) } }
        // a polynomial which the divisor, a plain symbol, divides term by term
        if let ([(ds, 1)], 0, 0) = (&d.t[..], d.c, x.c) {
            let mut q = Some(Lin::c(0));
            for (t, k) in &x.t {
                q = match q { None => None, Some(l) => if t == ds { Some(l.addk(*k)) } else if is_mono(*t) {
                    let mut f = factors(*t);
                    match f.iter().position(|y| y == ds) { Some(i) => { f.remove(i); let r = mono(f); self.mono_facts(st, r); Some(l.add(&Lin::s(r).scale(*k))) } None => None }
                } else { None } };
            }
            if let Some(q) = q { return Ok(q) }
        }
        let dk = match st.num.value(d) { Some(k) => Lin::c(k), None => d.clone() };
        let q = *self.quot.entry((x.clone(), dk.clone())).or_insert_with(fresh_id);
        let ql = Lin::s(q);
        let hi = match st.num.value(&dk) { Some(k) => { let m = st.num.max(x).min(st.num.ub(x)); if m < INF { m.div_euclid(k) } else { INF } } None => INF };
        if st.num.row(q).is_none() { st.nm().insert(q, 0, hi); }
        self.assume(st, &ql.sub(x))?;
        // division by the same positive divisor is monotone
        let peers: Vec<(Lin, Sym)> = self.quot.iter().filter(|(k, v)| k.1 == dk && **v != q && st.num.row(**v).is_some()).map(|(k, v)| (k.0.clone(), *v)).collect();
        let mut peers = peers; peers.sort_by_key(|p| p.1);
        for (y, p) in peers {
            if !y.syms().all(|s| st.num.row(s).is_some()) { continue }
            if st.num.entails_le0(&y.sub(x)) { self.assume(st, &Lin::s(p).sub(&ql))? }
            if st.num.entails_le0(&x.sub(&y)) { self.assume(st, &ql.sub(&Lin::s(p)))? }
        }
        let m = self.mul(st, &ql, &dk);
        self.assume(st, &m.sub(x))?;
        self.assume(st, &x.sub(&m).sub(&dk).addk(1))?;
        Ok(ql)
    }
    /// floor division by 2^k
    pub fn shr(&mut self, st: &mut State<'tcx>, x: &Lin, k: u32) -> R<'tcx, Lin> {
        let p = 1i128 << k;
        if let Some(v) = st.num.value(x) { return Ok(Lin::c(v.div_euclid(p))) }
        if x.t.iter().all(|t| t.1 % p == 0) { return Ok(Lin { c: x.c.div_euclid(p), t: x.t.iter().map(|t| (t.0, t.1 / p)).collect() }) }
        let q = *self.quot.entry((x.clone(), Lin::c(-p))).or_insert_with(fresh_id);
        let ql = Lin::s(q);
        let (lo, hi) = (st.num.lb(x), st.num.ub(x));
        if st.num.row(q).is_none() { st.nm().insert(q, if lo > -INF { lo.div_euclid(p) } else { -INF }, if hi < INF { hi.div_euclid(p) } else { INF }); }
        self.assume(st, &ql.scale(p).sub(x))?;
        self.assume(st, &x.sub(&ql.scale(p)).addk(1 - p))?;
        Ok(ql)
    }
    /// brings a mathematical result into the range of ty (wrapping)
    pub fn wrap(&mut self, st: &mut State<'tcx>, r: Lin, ty: Ty<'tcx>) -> R<'tcx, Lin> {
        let Some((lo, hi)) = int_range(ty) else { return Ok(r) };
        if is128(ty) { return Ok(r) }
        if self.decide(st, &r.addk(-hi))? {
            if self.decide(st, &r.neg().addk(lo))? { return Ok(r) }
            let m = hi - lo + 1;
            if st.num.entails_le0(&r.neg().addk(lo - m)) { return Ok(r.addk(m)) }
            return Ok(st.nm().fresh(lo, hi));
        }
        let m = hi - lo + 1;
        if st.num.entails_le0(&r.addk(-hi - m)) { return Ok(r.addk(-m)) }
        Ok(st.nm().fresh(lo, hi))
    }
    pub fn in_range(&mut self, st: &mut State<'tcx>, r: &Lin, ty: Ty<'tcx>) -> R<'tcx, i32> {
        let Some((lo, hi)) = int_range(ty) else { return Ok(0) };
        if is128(ty) { return Ok(0) }
        if !self.decide(st, &r.addk(-hi))? { return Ok(1) }
        if !self.decide(st, &r.neg().addk(lo))? { return Ok(-1) }
        Ok(0)
    }
    pub fn bin_math(&mut self, st: &mut State<'tcx>, op: BinOp, a: &Lin, b: &Lin) -> Lin {
        match op {
            BinOp::Add | BinOp::AddUnchecked | BinOp::AddWithOverflow => a.add(b),
            BinOp::Sub | BinOp::SubUnchecked | BinOp::SubWithOverflow => a.sub(b),
            _ => self.mul(st, a, b),
        }
    }
    pub fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, x: &Val<'tcx>, y: &Val<'tcx>, ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        use BinOp::*;
        let (a, b) = match (x, y) {
            (Val::Int(a), Val::Int(b)) => (a.clone(), b.clone()),
            _ => {
                let rt = match op { Eq | Ne | Lt | Le | Gt | Ge => self.tcx.types.bool, _ => ty };
                if op == Eq || op == Ne { if let (Val::Ref(p), Val::Ref(q)) = (x, y) { if p == q { return Ok(Val::b(op == Eq)) } } }
                if let (Eq | Ne | Lt | Le | Gt | Ge, Val::Agg(p), Val::Agg(q)) = (op, x, y) { if p.fields.is_empty() && q.fields.is_empty() { return Ok(Val::b(matches!(op, Eq | Le | Ge))) } }
                return Ok(self.unknown(st, rt, "operation on unmodelled operands"));
            }
        };
        Ok(match op {
            Add | Sub | Mul => { let r = self.bin_math(st, op, &a, &b); Val::Int(self.wrap(st, r, ty)?) }
            AddUnchecked | SubUnchecked | MulUnchecked => {
                let r = self.bin_math(st, op, &a, &b);
                if self.in_range(st, &r, ty)? != 0 { return Err(Stop::Panic("unchecked arithmetic overflows (undefined behaviour)".into())) }
                Val::Int(r)
            }
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let r = self.bin_math(st, op, &a, &b);
                let o = self.in_range(st, &r, ty)?;
                if o == 0 { Val::agg(0, vec![Val::Int(r), Val::b(false)]) } else { let w = self.wrap(st, r, ty)?; Val::agg(0, vec![Val::Int(w), Val::b(true)]) }
            }
            Div => { if self.eq(st, &b, &Lin::c(0))? { return Err(Stop::Panic("division by zero".into())) } let q = self.div(st, &a, &b)?; Val::Int(q) }
            Rem => { if self.eq(st, &b, &Lin::c(0))? { return Err(Stop::Panic("remainder by zero".into())) } let q = self.div(st, &a, &b)?; let m = self.mul(st, &q, &b); Val::Int(a.sub(&m)) }
            Lt => Val::b(self.lt(st, &a, &b)?),
            Le => Val::b(self.le(st, &a, &b)?),
            Gt => Val::b(self.lt(st, &b, &a)?),
            Ge => Val::b(self.le(st, &b, &a)?),
            Eq => Val::b(self.eq(st, &a, &b)?),
            Ne => Val::b(!self.eq(st, &a, &b)?),
            Cmp => {
                let v = if self.lt(st, &a, &b)? { 0 } else if self.eq(st, &a, &b)? { 1 } else { 2 };
                Val::agg(v, vec![])
            }
            Shl | ShlUnchecked => {
                let Some(k) = st.num.value(&b) else { return Ok(self.unknown(st, ty, "symbolic shift")) };
                let bits = self.bits(ty);
                let k = k.rem_euclid(bits as i128) as u32;
                if k >= 100 { return Ok(self.unknown(st, ty, "large shift")) }
                let r = a.scale(1i128 << k);
                if self.in_range(st, &r, ty)? == 0 { Val::Int(r) } else { let (lo, hi) = int_range(ty).unwrap(); Val::Int(st.nm().fresh(lo, hi)) }
            }
            Shr | ShrUnchecked => {
                let Some(k) = st.num.value(&b) else { return Ok(self.unknown(st, ty, "symbolic shift")) };
                let bits = self.bits(ty);
                let k = k.rem_euclid(bits as i128) as u32;
                Val::Int(self.shr(st, &a, k)?)
            }
            BitAnd | BitOr | BitXor if ty.is_bool() => {
                let (p, q) = (self.truth(st, x)?, self.truth(st, y)?);
                Val::b(match op { BitAnd => p & q, BitOr => p | q, _ => p ^ q })
            }
            BitAnd | BitOr | BitXor => {
                let (va, vb) = (st.num.value(&a), st.num.value(&b));
                if let (Some(p), Some(q)) = (va, vb) { return Ok(Val::k(match op { BitAnd => p & q, BitOr => p | q, _ => p ^ q })) }
                if op == BitAnd {
                    let (x, m) = if vb.is_some() { (&a, vb.unwrap()) } else if va.is_some() { (&b, va.unwrap()) } else { return Ok(self.unknown(st, ty, "bit and")) };
                    if m == 0 { return Ok(Val::k(0)) }
                    if m > 0 && (m + 1) & m == 0 { let k = (m + 1).trailing_zeros(); let q = self.shr(st, x, k)?; return Ok(Val::Int(x.sub(&q.scale(m + 1)))) }
                    if m < 0 && (-m) & (-m - 1) == 0 { let k = (-m).trailing_zeros(); let q = self.shr(st, x, k)?; return Ok(Val::Int(q.scale(-m))) }
                }
                return Ok(self.unknown(st, ty, "bit operation"));
            }
            Offset => return Err(Stop::Unsup("pointer arithmetic".into())),
        })
    }
    pub fn bits(&self, ty: Ty<'tcx>) -> u32 {
        match ty.kind() { TyKind::Int(i) => i.bit_width().unwrap_or(64) as u32, TyKind::Uint(i) => i.bit_width().unwrap_or(64) as u32, _ => 64 }
    }
    pub fn unknown(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, why: &str) -> Val<'tcx> {
        *self.havocs.entry(why.to_string()).or_insert(0) += 1;
        st.approx.get_or_insert(why.into());
        self.expand(st, ty)
    }

    // ---------- rvalues ----------
    fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rvalue<'tcx>, dest_ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        match rv {
            Rvalue::Use(o, ..) => self.operand(st, o),
            Rvalue::CopyForDeref(p) => self.operand(st, &Operand::Copy(*p)),
            Rvalue::Reborrow(_, _, p) => self.operand(st, &Operand::Copy(*p)),
            Rvalue::WrapUnsafeBinder(o, _) => self.operand(st, o),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let TyKind::Array(t, _) = dest_ty.kind() else { return Err(Stop::Unsup("repeat".into())) };
                let n = n.try_to_target_usize(self.tcx).unwrap_or(1 << 20);
                if n > 16 { return Ok(Val::Seq(Rc::new(SeqV { elem: *t, segs: vec![Seg::Run(Lin::c(n as i128), RunK::Any { inv: false })] }))) }
                let segs = (0..n).map(|_| { self.cell_ctr += 1; Seg::Cell(self.cell_ctr, v.clone()) }).collect();
                Ok(Val::Seq(Rc::new(SeqV { elem: *t, segs })))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let (l, _) = self.eval_place(st, p)?;
                Ok(match l { Loc::P(p) => { if let Some(Val::Str(s)) = self.peek(st, &p) { return Ok(Val::Str(s.clone())) } Val::rf(p) } Loc::W(s) => Val::Slice(Rc::new(s)) })
            }
            Rvalue::ThreadLocalRef(_) => Err(Stop::Unsup("thread local".into())),
            Rvalue::BinaryOp(op, ab) => {
                let t = self.op_ty(st, &ab.0);
                let a = self.operand(st, &ab.0)?; let b = self.operand(st, &ab.1)?;
                self.binop(st, *op, &a, &b, t)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.op_ty(st, o);
                let v = self.operand(st, o)?;
                match op {
                    UnOp::Not => if t.is_bool() { Ok(Val::b(!self.truth(st, &v)?)) } else if let Val::Int(l) = v {
                        let (lo, hi) = int_range(t).unwrap();
                        Ok(Val::Int(if lo < 0 { l.neg().addk(-1) } else { l.neg().addk(hi) }))
                    } else { Ok(self.unknown(st, t, "not")) },
                    UnOp::Neg => if let Val::Int(l) = v { let r = self.wrap(st, l.neg(), t)?; Ok(Val::Int(r)) } else { Ok(self.unknown(st, t, "negation of float")) },
                    UnOp::PtrMetadata => match v { Val::Slice(s) => Ok(Val::Int(s.len.clone())), Val::Str(_) => Ok(self.unknown(st, dest_ty, "str length")), _ => Ok(Val::unit()) },
                }
            }
            Rvalue::Discriminant(p) => {
                let (pl, ty) = self.place_p(st, p)?;
                self.discriminant(st, &pl, ty)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() { v.push(self.operand(st, o)?) }
                match &**k {
                    AggregateKind::Array(t) => {
                        let segs = v.into_iter().map(|x| { self.cell_ctr += 1; Seg::Cell(self.cell_ctr, x) }).collect();
                        Ok(Val::Seq(Rc::new(SeqV { elem: *t, segs })))
                    }
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        if self.transparent(dest_ty) { return Ok(v.into_iter().find(|x| !matches!(x, Val::Agg(a) if a.fields.is_empty())).unwrap_or(if active.is_some() || dest_ty.is_union() { Val::Uninit } else { Val::unit() })) }
                        let _ = d;
                        if let Some(f) = active { let mut fs = vec![Val::Uninit; f.as_usize() + 1]; fs[f.as_usize()] = v.pop().unwrap(); return Ok(Val::agg(0, fs)) }
                        Ok(Val::agg(vi.as_u32(), v))
                    }
                    AggregateKind::RawPtr(t, _) => {
                        match (&v[0], t.kind()) {
                            (Val::Ref(p), TyKind::Slice(_)) => { let Val::Int(n) = &v[1] else { return Err(Stop::Unsup("ptr metadata".into())) }; 
                                // pointer to an element of a sequence
                                Err(Stop::Unsup(format!("raw slice from parts {:?} {:?}", p, n))) }
                            (Val::Slice(s), TyKind::Slice(_)) => { let Val::Int(n) = &v[1] else { return Err(Stop::Unsup("ptr metadata".into())) }; Ok(Val::Slice(Rc::new(SliceV { p: s.p.clone(), start: s.start.clone(), len: n.clone() }))) }
                            (x, _) => Ok(x.clone()),
                        }
                    }
                    _ => Ok(Val::agg(0, v)),
                }
            }
            Rvalue::Cast(k, o, t) => {
                let st_ty = self.op_ty(st, o);
                let t = self.norm(*t);
                let v = self.operand(st, o)?;
                self.cast(st, *k, v, st_ty, t)
            }
        }
    }
    pub fn discriminant(&mut self, st: &mut State<'tcx>, pl: &PlaceV, ty: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        let v = self.read(st, pl)?;
        match ty.kind() {
            TyKind::Adt(d, _) if d.is_enum() => match v {
                Val::Agg(a) => { let dv = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(a.variant)); Ok(Val::k(self.sign(dv.val, dv.ty))) }
                Val::Top(_) => {
                    let mut forks = vec![];
                    for i in 0..d.variants().len() as u32 {
                        let mut s = st.clone();
                        let ft = self.field_tys(ty, i).unwrap();
                        if ft.iter().any(|t| t.is_never() || self.uninhabited(*t)) { continue }
                        let nv = Val::agg(i, ft.into_iter().map(Val::Top).collect());
                        self.write(&mut s, pl, nv)?;
                        forks.push(s);
                    }
                    self.fork(forks)
                }
                // a type with a single possible variant needs no value to know it
                v => match (0..d.variants().len() as u32).filter(|i| !self.field_tys(ty, *i).is_some_and(|f| f.iter().any(|t| t.is_never() || self.uninhabited(*t)))).collect::<Vec<_>>()[..] {
                    [i] => { let dv = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(i)); Ok(Val::k(self.sign(dv.val, dv.ty))) }
                    _ => Err(Stop::Unsup(format!("discriminant of {:?}", v))),
                },
            },
            _ => Ok(Val::k(0)),
        }
    }
    fn uninhabited(&self, t: Ty<'tcx>) -> bool { match t.kind() { TyKind::Adt(d, _) => d.is_enum() && d.variants().is_empty(), TyKind::Never => true, _ => false } }
    fn sign(&self, v: u128, ty: Ty<'tcx>) -> i128 {
        match int_range(ty) { Some((lo, hi)) if lo < 0 && !is128(ty) => { let v = (v & ((hi - lo) as u128)) as i128; if v > hi { v - (hi - lo + 1) } else { v } } _ => v as i128 }
    }
    pub fn cast(&mut self, st: &mut State<'tcx>, k: CastKind, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        match k {
            CastKind::IntToInt => {
                match v {
                    Val::Int(l) => { let r = self.wrap(st, l, to)?; Ok(Val::Int(r)) }
                    Val::Agg(a) => { if let TyKind::Adt(d, _) = from.kind() { let dv = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(a.variant)); return Ok(Val::k(self.sign(dv.val, dv.ty))) } Err(Stop::Unsup("cast".into())) }
                    _ => Ok(self.unknown(st, to, "int cast")),
                }
            }
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(st, v, from, to),
            CastKind::PtrToPtr | CastKind::Subtype => {
                // thin pointer to slice data from a fat pointer keeps the slice value
                Ok(v)
            }
            CastKind::PointerCoercion(c, _) => {
                use ty::adjustment::PointerCoercion::*;
                match c {
                    Unsize => {
                        let inner = |t: Ty<'tcx>| match t.kind() { TyKind::Ref(_, t, _) | TyKind::RawPtr(t, _) => Some(*t), TyKind::Adt(d, a) if d.is_box() || d.is_struct() => Some(a.type_at(0)), _ => None };
                        if let (Some(f), Some(t), Val::Ref(p)) = (inner(from), inner(to), &v) {
                            if let (TyKind::Array(..), TyKind::Slice(_)) = (f.kind(), t.kind()) {
                                let n = self.array_len(f).unwrap_or(0);
                                return Ok(Val::Slice(Rc::new(SliceV { p: (**p).clone(), start: Lin::c(0), len: Lin::c(n as i128) })));
                            }
                        }
                        Ok(v)
                    }
                    ClosureFnPointer(_) | ReifyFnPointer(_) => Ok(Val::Top(from)),
                    _ => Ok(v),
                }
            }
            _ => Ok(self.unknown(st, to, "float or pointer cast")),
        }
    }
    pub fn transmute(&mut self, st: &mut State<'tcx>, v: Val<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<'tcx, Val<'tcx>> {
        if from == to { return Ok(v) }
        let ptr = |t: Ty<'tcx>| matches!(t.kind(), TyKind::Ref(..) | TyKind::RawPtr(..)) || self.transparent(t);
        if ptr(from) || ptr(to) { if !matches!(v, Val::Top(_)) { return Ok(v) } }
        if let Some(l) = self.leaf(&v) {
            if let Some(w) = self.wrap_leaf(to, l) {
                if let (Some(a), Some(b)) = (int_range(from), int_range(to)) { if a != b { return Ok(self.unknown(st, to, "transmute between integer types")) } }
                return Ok(w);
            }
        }
        // the niche of a non-zero integer
        if let TyKind::Adt(d, g) = to.kind() {
            if d.is_enum() && int_range(from).is_some() && self.tcx.is_diagnostic_item(rustc_span::sym::Option, d.did()) {
                if let Some(l) = self.leaf(&v) { if let Some(w) = self.wrap_leaf(g.type_at(0), l.clone()) {
                    return Ok(if self.eq(st, &l, &Lin::c(0))? { Val::none() } else { Val::some(w) });
                } }
            }
        }
        if let Val::Seq(_) = v { return Ok(v) }
        Ok(self.unknown(st, to, "transmute"))
    }

    // ---------- stepping ----------
    pub fn step(&mut self, st: &mut State<'tcx>) -> R<'tcx, bool> {
        // returns Ok(false) when the state finished
        let f = st.top().f.clone();
        let (bb, si) = (st.top().bb, st.top().si);
        let data = &f.body.basic_blocks[bb];
        if si < data.statements.len() {
            match &data.statements[si].kind {
                StatementKind::Assign(b) => {
                    let dt = self.norm(b.0.ty(&f.body.local_decls, self.tcx).ty);
                    let v = self.rvalue(st, &b.1, dt)?;
                    self.assign(st, &b.0, v)?;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let (p, _) = self.place_p(st, place)?;
                    let v = self.lval(st, &p)?;
                    unsafe { match &mut *v { Val::Agg(a) => Rc::make_mut(a).variant = variant_index.as_u32(), x => *x = Val::agg(variant_index.as_u32(), vec![]) } }
                }
                StatementKind::StorageDead(l) => { let l = l.as_usize(); st.topm().locals[l] = Val::Uninit; }
                StatementKind::StorageLive(l) => { let l = l.as_usize(); st.topm().locals[l] = Val::Uninit; }
                StatementKind::Intrinsic(i) => match &**i {
                    NonDivergingIntrinsic::Assume(o) => { let v = self.operand(st, o)?; if let Val::Int(_) = v { if !self.truth(st, &v)? { return Err(Stop::Dead) } } }
                    NonDivergingIntrinsic::CopyNonOverlapping(_) => return Err(Stop::Unsup("memcpy".into())),
                },
                _ => {}
            }
            st.topm().si += 1;
            return Ok(true);
        }
        let term = data.terminator();
        match &term.kind {
            TerminatorKind::Goto { target, .. } => { self.goto(st, *target); Ok(true) }
            TerminatorKind::FalseEdge { real_target, .. } => { self.goto(st, *real_target); Ok(true) }
            TerminatorKind::FalseUnwind { real_target, .. } => { self.goto(st, *real_target); Ok(true) }
            TerminatorKind::Drop { target, .. } => { self.goto(st, *target); Ok(true) }
            TerminatorKind::SwitchInt { discr, targets } => {
                let t = self.op_ty(st, discr);
                let v = self.operand(st, discr)?;
                match v {
                    Val::Int(l) => {
                        for (val, tgt) in targets.iter() {
                            let k = self.sign(val, t);
                            if self.eq(st, &l, &Lin::c(k))? { self.goto(st, tgt); return Ok(true) }
                        }
                        self.goto(st, targets.otherwise());
                        Ok(true)
                    }
                    v => Err(Stop::Unsup(format!("switch on {:?}", v))),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                // raw pointers are created only inside library code summarised or analysed on abstract places
                if matches!(&**msg, AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference) { self.goto(st, *target); return Ok(true) }
                let v = self.operand(st, cond)?;
                if self.truth(st, &v)? == *expected { self.goto(st, *target); Ok(true) } else { Err(Stop::Panic(assert_msg(msg))) }
            }
            TerminatorKind::Return => {
                let ret = st.top().locals[0].clone();
                let fr = st.frames.pop().unwrap();
                if st.frames.is_empty() { return Ok(false) }
                if fr.f.kind == FnKind::Repo && st.top().f.kind == FnKind::Spec && !st.top().f.name.starts_with("util::") && !st.top().f.name.starts_with("stubs::") { st.last_fn = Some(fr.f.clone()) }
                if let (Some(d), Some(t)) = (&fr.dest, fr.target) {
                    match self.assign(st, d, ret) { Ok(()) => {} Err(e) => { return Err(match e { Stop::Fork(_) => Stop::Unsup("fork while returning".into()), e => e }) } }
                    self.goto(st, t);
                    Ok(true)
                } else { Err(Stop::Panic("return from a diverging call".into())) }
            }
            TerminatorKind::Unreachable => Err(Stop::Dead),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(st, func);
                let a: Vec<Operand<'tcx>> = args.iter().map(|a| a.node.clone()).collect();
                self.call(st, fty, func, &a, *destination, *target)
            }
            k => Err(Stop::Unsup(format!("terminator {:?}", k))),
        }
    }
    pub fn goto(&mut self, st: &mut State<'tcx>, t: BasicBlock) {
        let f = st.topm(); f.bb = t; f.si = 0; f.head_done = false;
    }
    pub fn push_frame(&mut self, st: &mut State<'tcx>, f: Rc<FnInfo<'tcx>>, args: Vec<Val<'tcx>>, dest: Option<Place<'tcx>>, target: Option<BasicBlock>) {
        let n = f.body.local_decls.len();
        let mut locals = vec![Val::Uninit; n];
        for (i, a) in args.into_iter().enumerate() { if i + 1 < n { locals[i + 1] = a } }
        // zero sized locals are always initialised
        st.frames.push(Rc::new(Frame { f, bb: START_BLOCK, si: 0, locals, dest, target, post: Post::None, head_done: false }));
    }
    pub fn resolve(&self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        Instance::try_resolve(self.tcx, self.env, d, args).ok().flatten()
    }
    fn call(&mut self, st: &mut State<'tcx>, fty: Ty<'tcx>, func: &Operand<'tcx>, ops: &[Operand<'tcx>], dest: Place<'tcx>, target: Option<BasicBlock>) -> R<'tcx, bool> {
        let (d, gargs) = match fty.kind() {
            TyKind::FnDef(d, a) => (*d, a.skip_binder()),
            _ => {
                let v = self.operand(st, func)?;
                if let Val::Top(t) = v { match t.kind() { TyKind::FnDef(d, a) => (*d, a.skip_binder()), _ => return Err(Stop::Unsup("function pointer".into())) } } else { return Err(Stop::Unsup("function pointer".into())) }
            }
        };
        let gargs = self.norm(gargs);
        let mut args = vec![];
        for o in ops { args.push(self.operand(st, o)?) }
        let atys: Vec<Ty<'tcx>> = ops.iter().map(|o| self.op_ty(st, o)).collect();
        let rty = self.norm(dest.ty(&st.top().f.body.local_decls, self.tcx).ty);
        if std::env::var("CHRONO_CALLS").is_ok() { eprintln!("{:width$}call {} {:?}", "", ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, gargs)), args, width = st.frames.len()); }
        match self.model(st, d, gargs, &args, &atys, rty)? {
            Model::Val(v) => {
                let Some(t) = target else { return Err(Stop::Dead) };
                self.assign(st, &dest, v)?;
                self.goto(st, t);
                Ok(true)
            }
            Model::Call(inst, args) => self.enter(st, inst, args, rty, dest, target),
            Model::NoModel => {
                let Some(inst) = self.resolve(d, gargs) else { return Err(Stop::Unsup(format!("unresolved call {}", self.path(d)))) };
                // untuple rust-call arguments for closures
                let mut args = args;
                let sig_rust_call = matches!(self.path(d).as_ref(), "std::ops::FnOnce::call_once" | "std::ops::FnMut::call_mut" | "std::ops::Fn::call" | "core::ops::FnOnce::call_once" | "core::ops::FnMut::call_mut" | "core::ops::Fn::call");
                if sig_rust_call {
                    if let Some(last) = args.pop() { match last { Val::Agg(a) => args.extend(a.fields.iter().cloned()), Val::Top(t) => { if let Val::Agg(a) = self.expand(st, t) { args.extend(a.fields.iter().cloned()) } } Val::Uninit => {} v => args.push(v) } }
                }
                self.enter(st, inst, args, rty, dest, target)
            }
        }
    }
    fn enter(&mut self, st: &mut State<'tcx>, inst: Instance<'tcx>, mut args: Vec<Val<'tcx>>, rty: Ty<'tcx>, dest: Place<'tcx>, target: Option<BasicBlock>) -> R<'tcx, bool> {
        if st.frames.len() > 120 { return Err(Stop::Unsup("call depth".into())) }
        match self.fninfo(inst) {
            Some(f) => {
                if let Some(sp) = f.body.spread_arg {
                    let k = sp.as_usize() - 1;
                    let rest = args.split_off(k.min(args.len()));
                    args.push(Val::agg(0, rest));
                }
                if f.body.arg_count != args.len() {
                    return Err(Stop::Unsup(format!("arity of {}: {} vs {}", f.name, f.body.arg_count, args.len())));
                }
                self.push_frame(st, f, args, Some(dest), target);
                Ok(true)
            }
            None => {
                let name = ty::print::with_no_trimmed_paths!(format!("{}", inst));
                if rty.is_never() || target.is_none() { return Err(Stop::Panic(format!("call of {}", name))) }
                // unknown function: forget everything reachable through its arguments
                for a in &args { self.havoc_reach(st, a) }
                let v = self.unknown(st, rty, &format!("call of {} (no MIR)", name));
                self.assign(st, &dest, v)?;
                self.goto(st, target.unwrap());
                Ok(true)
            }
        }
    }
    pub fn havoc_reach(&mut self, st: &mut State<'tcx>, a: &Val<'tcx>) {
        // conservative: a unique reference passed to an unknown function is forgotten
        match a {
            Val::Ref(_) | Val::Slice(_) => { st.approx = Some("unknown function received a reference".into()); }
            Val::Agg(g) => { for f in &g.fields { self.havoc_reach(st, f) } }
            _ => {}
        }
    }

    // ---------- driver loop ----------
    pub fn loc(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let n = format!("{}", l.file.name.prefer_local_unconditionally());
        let n = match n.rfind("/src/") { Some(i) => n[i + 1..].to_string(), None => n };
        format!("{}:{}", n, l.line)
    }
    pub fn trace(&self, st: &State<'tcx>) -> Vec<String> {
        let mut v = vec![];
        let mut t = st.trace.clone();
        while let Some(n) = t { if v.len() > 40 && self.verbose != 8 { break } let s = format!("{} ({})", self.loc(n.span), n.what); if v.last() != Some(&s) { v.push(s) } t = n.prev.clone() }
        v.reverse();
        v
    }
    pub fn stack(&self, st: &State<'tcx>) -> (String, String, Vec<String>) {
        // innermost repo frame for the key
        let mut repo = String::new(); let mut loc = String::new();
        for fr in st.frames.iter().rev() {
            if fr.f.kind == FnKind::Repo {
                repo = fr.f.name.clone();
                let bd = &fr.f.body.basic_blocks[fr.bb];
                let sp = if fr.si < bd.statements.len() { bd.statements[fr.si].source_info.span } else { bd.terminator().source_info.span };
                loc = self.loc(sp);
                break;
            }
        }
        if loc.is_empty() { loc = self.loc(st.span()) }
        (repo, loc, st.frames.iter().map(|f| f.f.name.clone()).collect())
    }
    pub fn violation(&mut self, st: &State<'tcx>, what: &str) {
        let (repo, loc, _) = self.stack(st);
        // the innermost repository function being executed, or else the one whose result is being judged
        let fi = st.frames.iter().rev().find(|f| f.f.kind == FnKind::Repo).map(|f| f.f.clone()).or_else(|| st.last_fn.clone());
        let (func, fnloc) = match &fi { Some(f) => (f.name.clone(), self.loc(self.tcx.def_span(f.inst.def_id()))), None => (String::new(), String::new()) };
        let _ = repo;
        let key = format!("{} | {} | {}", self.root_name, what, func);
        let tr = self.trace(st);
        let ap = st.approx.as_ref().map(|s| s.to_string());
        if self.verbose > 1 && !self.events.contains_key(&key) { self.dump(st) }
        let e = Event { key: key.clone(), msg: what.to_string(), loc, func, fnloc, trace: tr, approx: ap.clone(), lossy: st.lossy };
        // one report is enough: what follows only tells where else it shows
        if ap.is_none() { self.deadline = self.deadline.min(std::time::Instant::now() + std::time::Duration::from_secs(if self.bounded { 10 } else { 30 })) }
        match self.events.get_mut(&key) {
            None => { self.events.insert(key, e); }
            Some(o) => { if (o.approx.is_some(), o.lossy) > (ap.is_some(), st.lossy) { *o = e } }
        }
    }
    pub fn dump(&self, st: &State<'tcx>) {
        eprintln!("--- state ({} frames)", st.frames.len());
        for fr in &st.frames { eprintln!("  in {} bb{} si{}", fr.f.name, fr.bb.as_u32(), fr.si); if self.verbose > 2 || fr.f.kind == FnKind::Spec { for vi in &fr.f.body.var_debug_info { if let VarDebugInfoContents::Place(p) = &vi.value { if p.projection.is_empty() { eprintln!("     {} = {:?}", vi.name, fr.locals[p.local.as_usize()]) } } } } }
        if self.verbose > 2 { for (k, v) in st.heap.iter() { eprintln!("  heap {} = {:?}", k, v) } }
        for s in &st.num.syms { let (a, b) = st.num.bounds_sym(*s); eprintln!("  s{} in [{}, {}]{}", s, a, b, if is_mono(*s) { format!(" mono {:?}", factors(*s)) } else { String::new() }); }
        for i in &st.num.syms { for j in &st.num.syms { if i != j { let d = st.num.at(st.num.row(*i).unwrap(), st.num.row(*j).unwrap()); if d < INF && d.abs() < 1 << 40 { eprintln!("  s{} - s{} <= {}", i, j, d) } } } }
        for g in &st.num.gens { eprintln!("  {:?} <= 0", g) }
        eprintln!("  ghosts {:?}", st.ghosts);
    }
    fn enqueue(&mut self, st: State<'tcx>) {
        let pos = st.frames.iter().map(|f| (f.f.order[f.bb.as_usize()], f.si as u32)).collect();
        self.seq += 1;
        let turns = if self.bounded { st.turns } else { 0 };
        self.work.push(Pending { turns, pos, seq: self.seq, st });
    }
    pub fn run(&mut self, init: State<'tcx>) {
        self.enqueue(init);
        'w: while let Some(Pending { st: mut st, .. }) = self.work.pop() {
            // superseded by a wider state of the same loop head, which is explored instead
            if let Some((id, v)) = st.tag { if self.versions[id as usize] != v { continue } }
            self.nstates += 1;
            if self.nstates & 1023 == 0 && resident() > self.memory { self.limit = 0 }
            if self.nstates > self.limit || std::time::Instant::now() > self.deadline {
                self.events.insert("limit".into(), Event { key: format!("{} | analysis budget exhausted", self.root_name), msg: "analysis budget exhausted".into(), loc: String::new(), func: String::new(), fnloc: String::new(), trace: vec![], approx: Some("budget".into()), lossy: false });
                self.work.clear();
                return;
            }
            loop {
                self.nsteps += 1;
                // loop head?
                let (is_head, done) = { let t = st.top(); (t.si == 0 && t.f.heads[t.bb.as_usize()], t.head_done) };
                let r = if (is_head && !done) || st.cuts > 0 {
                    match self.at_head(&mut st) {
                        Ok(true) => { st.cuts = 0; st.topm().head_done = true; continue }
                        Ok(false) => continue 'w,
                        Err(e) => Err(e),
                    }
                } else { st.cursor = 0; self.step(&mut st) };
                match r {
                    Ok(true) => { if !st.choices.is_empty() { st.choices.clear(); } }
                    Ok(false) => { self.finished += 1; continue 'w }
                    Err(Stop::Dead) => continue 'w,
                    Err(Stop::Fork(v)) => { for s in v { if !s.num.dead { self.enqueue(s) } } continue 'w }
                    Err(Stop::Panic(m)) => { self.npanic += 1; if !st.panic_ok || m.contains("undefined behaviour") { self.violation(&st, &format!("reachable panic: {}", m)); } continue 'w }
                    Err(Stop::Unsup(m)) => {
                        *self.havocs.entry(format!("unsupported: {}", m)).or_insert(0) += 1;
                        if st.approx.is_none() { st.approx = Some(m.clone().into()) }
                        self.violation(&st, &format!("not analysable: {}", trunc(&m, 120)));
                        if self.verbose > 1 { eprintln!("unsupported {} at {}", m, self.loc(st.span())); for f in &st.frames { eprintln!("   {} bb{} si{}", f.f.name, f.bb.as_u32(), f.si) } }
                        continue 'w
                    }
                }
            }
        }
    }
}
/// resident memory in MB
fn resident() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).map_or(0, |p| p >> 8) }
fn trunc(s: &str, n: usize) -> String { s.chars().take(n).collect() }
fn assert_msg(m: &AssertMessage<'_>) -> String {
    match m {
        AssertKind::Overflow(op, ..) => format!("arithmetic overflow in {:?}", op),
        AssertKind::OverflowNeg(_) => "negation overflows".into(),
        AssertKind::BoundsCheck { .. } => "index out of bounds".into(),
        AssertKind::DivisionByZero(_) => "division by zero".into(),
        AssertKind::RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}
/// a state waiting to be explored; loops are explored before what follows them
pub struct Pending<'tcx> { pub turns: u32, pub pos: Vec<(u32, u32)>, pub seq: u64, pub st: State<'tcx> }
impl PartialEq for Pending<'_> { fn eq(&self, o: &Self) -> bool { self.seq == o.seq } }
impl Eq for Pending<'_> {}
impl PartialOrd for Pending<'_> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Pending<'_> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        if self.turns != o.turns { return o.turns.cmp(&self.turns) }
        // smaller position first; deeper first when one is a prefix of the other
        for (a, b) in self.pos.iter().zip(&o.pos) { if a != b { return b.cmp(a) } }
        self.pos.len().cmp(&o.pos.len()).then(self.seq.cmp(&o.seq))
    }
}
pub enum Model<'tcx> { Val(Val<'tcx>), Call(Instance<'tcx>, Vec<Val<'tcx>>), NoModel }
#[allow(dead_code)]
pub fn _f(_: FieldIdx) {}
