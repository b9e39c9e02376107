//! Transfer functions of library calls: collections and iterators are modelled on
//! segment lists, everything else is analysed from its MIR.
use crate::interp::*;
use crate::num::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{GenericArgsRef, Instance, Ty, TyKind};
use std::rc::Rc;

type M<'tcx> = Model<'tcx>;

impl<'tcx> Engine<'tcx> {
    fn last2(&mut self, d: DefId) -> String {
        let p = self.path(d);
        let p: String = { let mut o = String::new(); let mut depth = 0; for c in p.chars() { match c { '<' => depth += 1, '>' => depth -= 1, c if depth == 0 => o.push(c), _ => {} } } o };
        let v: Vec<&str> = p.split("::").filter(|x| !x.is_empty()).collect();
        if v.len() >= 2 { format!("{}::{}", v[v.len() - 2], v[v.len() - 1]) } else { p.clone() }
    }
    pub fn ty_key(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(d, _) => self.last2(d.did()),
            TyKind::Slice(_) => "slice".into(),
            TyKind::Array(..) => "array".into(),
            TyKind::Str => "str".into(),
            TyKind::Ref(_, t, _) => { let k = self.ty_key(*t); format!("&{}", k) }
            TyKind::Closure(..) => "closure".into(),
            _ => format!("{}", t),
        }
    }
    pub fn fn_key(&mut self, d: DefId, gargs: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "?".into());
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let self_ty = gargs.type_at(0);
            let k = self.ty_key(self_ty);
            return format!("{}.{}.{}", k, tcx.item_name(tr), name);
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(im).skip_binder();
            let k = self.ty_key(t);
            return format!("{}.{}", k, name);
        }
        self.last2(d)
    }
    pub fn slice_arg(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>) -> R<'tcx, SliceV> {
        match v {
            Val::Slice(s) => Ok((**s).clone()),
            Val::Ref(p) => match self.read(st, p)? {
                Val::Seq(_) => { let n = self.seq_len(st, p)?; Ok(SliceV { p: (**p).clone(), start: Lin::c(0), len: n }) }
                Val::Slice(s) => Ok((*s).clone()),
                Val::It(it) => match &*it { ItV::Slice(s) => Ok(s.clone()), ItV::Own(_) => { let n = self.seq_len(st, p)?; Ok(SliceV { p: (**p).clone(), start: Lin::c(0), len: n }) } _ => Err(Stop::Unsup("slice of an iterator".into())) },
                Val::Ref(q) => { let q = Val::Ref(q); self.slice_arg(st, &q) }
                v => Err(Stop::Unsup(format!("slice expected, found {:?}", v))),
            },
            v => Err(Stop::Unsup(format!("slice expected, found {:?}", v))),
        }
    }
    fn pl(&self, v: &Val<'tcx>) -> R<'tcx, PlaceV> { match v { Val::Ref(p) => Ok((**p).clone()), v => Err(Stop::Unsup(format!("reference expected, found {:?}", v))) } }
    fn int(&self, v: &Val<'tcx>) -> R<'tcx, Lin> { match v { Val::Int(l) => Ok(l.clone()), v => self.leaf(v).ok_or_else(|| Stop::Unsup(format!("integer expected, found {:?}", v))) } }
    /// (start, end) of an index expression relative to a length; None end check is done by the caller
    fn range_of(&mut self, st: &mut State<'tcx>, v: &Val<'tcx>, t: Ty<'tcx>, n: &Lin) -> R<'tcx, (Lin, Lin)> {
        let k = self.ty_key(t);
        let f = |i: usize| -> R<'tcx, Lin> { match v { Val::Agg(a) => a.fields.get(i).and_then(|x| if let Val::Int(l) = x { Some(l.clone()) } else { None }).ok_or_else(|| Stop::Unsup("range bound".into())), _ => Err(Stop::Unsup("range".into())) } };
        let k = k.rsplit("::").next().unwrap().to_string();
        Ok(match k.as_str() {
            "Range" => (f(0)?, f(1)?),
            "RangeFrom" => (f(0)?, n.clone()),
            "RangeTo" => (Lin::c(0), f(0)?),
            "RangeFull" => (Lin::c(0), n.clone()),
            "RangeInclusive" => { let ex = f(2)?; let (a, b) = (f(0)?, f(1)?); if !self.eq(st, &ex, &Lin::c(0))? { return Err(Stop::Unsup("exhausted range".into())) } (a, b.addk(1)) }
            "RangeToInclusive" => (Lin::c(0), f(0)?.addk(1)),
            _ => return Err(Stop::Unsup(format!("index by {}", k))),
        })
    }
    /// Some(value) if in bounds
    fn slice_get(&mut self, st: &mut State<'tcx>, s: &SliceV, i: &Val<'tcx>, it: Ty<'tcx>) -> R<'tcx, Option<Val<'tcx>>> {
        if int_range(it).is_some() {
            let i = self.int(i)?;
            if !self.lt(st, &i, &s.len)? { return Ok(None) }
            let off = s.start.add(&i);
            let p = self.ensure_cell(st, &s.p, &off)?;
            return Ok(Some(Val::rf(p)));
        }
        let (a, b) = self.range_of(st, i, it, &s.len)?;
        if !self.le(st, &a, &b)? || !self.le(st, &b, &s.len)? { return Ok(None) }
        Ok(Some(Val::Slice(Rc::new(SliceV { p: s.p.clone(), start: s.start.add(&a), len: b.sub(&a) }))))
    }
    fn opt(v: Option<Val<'tcx>>) -> Val<'tcx> { match v { Some(v) => Val::some(v), None => Val::none() } }

    fn stub(&mut self, name: &str, gargs: GenericArgsRef<'tcx>, args: Vec<Val<'tcx>>) -> R<'tcx, M<'tcx>> {
        let Some(d) = self.stubs.get(name).copied() else { return Err(Stop::Unsup(format!("missing library summary {}", name))) };
        Ok(Model::Call(Instance::new_raw(d, gargs), args))
    }

    pub fn model(&mut self, st: &mut State<'tcx>, d: DefId, gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], atys: &[Ty<'tcx>], rty: Ty<'tcx>) -> R<'tcx, M<'tcx>> {
        let tcx = self.tcx;
        if let Some(i) = tcx.intrinsic(d) {
            return self.intrinsic(st, i.name.as_str(), i.must_be_overridden, gargs, args, atys, rty);
        }
        if d.krate == self.spec_crate {
            if self.path(d).contains("rt::") { return self.rt(st, d, gargs, args, rty) }
            return Ok(Model::NoModel);
        }
        if Some(d.krate) == self.repo_crate { return Ok(Model::NoModel) }
        let key = self.fn_key(d, gargs);
        if let Some(m) = self.named(st, &key, d, gargs, args, atys, rty)? { return Ok(m) }
        let path = self.path(d);
        if rty.is_never() {
            let msg = args.iter().find_map(|a| match a { Val::Str(s) if &**s != "?" => Some(s.to_string()), Val::Ref(p) => match self.peek(st, p) { Some(Val::Agg(_)) | Some(Val::Str(_)) => None, _ => None }, _ => None });
            return Err(Stop::Panic(msg.unwrap_or_else(|| path.rsplit("::").next().unwrap_or("").to_string())));
        }
        if tcx.crate_name(d.krate).as_str() == "chrono" && (key.ends_with("NaiveDateTime.from_timestamp_opt") || key.ends_with("DateTime.from_timestamp")) {
            if let TyKind::Adt(_, g) = rty.kind() { let g = gargs_ty(self, &[g.type_at(0)]); return self.stub("chrono_from_timestamp", g, args.to_vec()) }
        }
        if tcx.crate_name(d.krate).as_str() == "chrono" { if let TyKind::Adt(a, _) = rty.kind() { if tcx.item_name(a.did()).as_str() == "DelayedFormat" {
            *self.havocs.entry("text".into()).or_insert(0) += 1;
            return Ok(Model::Val(self.expand(st, rty)))
        } } }
        if tcx.crate_name(d.krate).as_str() == "chrono" && key.ends_with("DateTime.timestamp") && args.len() == 1 {
            let p = self.pl(&args[0])?;
            let mut v = self.read(st, &p)?;
            if !key.ends_with("NaiveDateTime.timestamp") { if let Val::Agg(g) = &v { let x = g.fields.first().cloned(); if let Some(x) = x { v = x } } }
            if let Val::Agg(g) = &v { if let Some(s) = g.fields.get(2) { return Ok(Model::Val(s.clone())) } }
        }
        // texts are opaque: what is computed from their contents is unknown
        if key.starts_with("string::String.") || key.starts_with("&string::String.") || key.starts_with("str.") || key.starts_with("&str.") || key.ends_with(".ToString.to_string") {
            let text = match rty.kind() { TyKind::Adt(d, _) => self.last2(d.did()) == "string::String", TyKind::Ref(..) => true, _ => rty.is_unit() };
            if text { *self.havocs.entry("text".into()).or_insert(0) += 1; return Ok(Model::Val(self.expand(st, rty))) }
            if !rty.is_never() { return Ok(Model::Val(self.unknown(st, rty, "contents of a text"))) }
        }
        if tcx.trait_of_assoc(d).is_some_and(|t| self.path(t).contains("fmt::")) {
            if let TyKind::Adt(a, _) = gargs.type_at(0).kind() { if Some(a.did().krate) == self.repo_crate { return Ok(Model::NoModel) } }
        }
        if path.contains("fmt::") && !path.contains("ptr::") {
            // what a writer refuses is not the matter here: it accepts
            if let TyKind::Adt(a, g) = rty.kind() { if tcx.item_name(a.did()).as_str() == "Result" {
                if let TyKind::Adt(e, _) = g.type_at(1).kind() { if self.path(e.did()).ends_with("fmt::Error") {
                    *self.havocs.entry("formatting".into()).or_insert(0) += 1;
                    let v = self.expand(st, g.type_at(0));
                    return Ok(Model::Val(Val::agg(0, vec![v])))
                } }
            } }
            *self.havocs.entry("formatting".into()).or_insert(0) += 1; return Ok(Model::Val(self.expand(st, rty))) }
        // redirect overridden iterator methods of modelled iterators to the default bodies of the trait
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let self_ty = gargs.type_at(0);
            let k = self.ty_key(self_ty);
            if matches!(k.as_str(), "slice::Iter" | "slice::IterMut" | "vec::IntoIter" | "vec::Drain" | "array::IntoIter" | "into_iter::IntoIter" | "drain::Drain" | "iter::IntoIter") || (k == "ops::RangeInclusive" && false) {
                let tn = tcx.item_name(tr);
                if tn.as_str() == "Iterator" && matches!(tcx.item_name(d).as_str(), "any" | "all") {
                    // (their promoted constants are not part of the metadata of the standard library)
                    return self.stub(&format!("iter_{}", tcx.item_name(d)), gargs, args.to_vec())
                }
                if matches!(tn.as_str(), "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator") && tcx.defaultness(d).has_value() {
                    return Ok(Model::Call(Instance::new_raw(d, gargs), args.to_vec()));
                }
            }
        }
        Ok(Model::NoModel)
    }

    fn intrinsic(&mut self, st: &mut State<'tcx>, name: &str, must: bool, gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], atys: &[Ty<'tcx>], rty: Ty<'tcx>) -> R<'tcx, M<'tcx>> {
        let t0 = gargs.iter().find_map(|a| a.as_type());
        let v = match name {
            "saturating_add" | "saturating_sub" => {
                let t = t0.unwrap(); let (a, b) = (self.int(&args[0])?, self.int(&args[1])?);
                let r = if name == "saturating_add" { a.add(&b) } else { a.sub(&b) };
                let (lo, hi) = int_range(t).unwrap();
                match self.in_range(st, &r, t)? { 0 => Val::Int(r), 1 => Val::k(hi), _ => Val::k(lo) }
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let op = match name { "wrapping_add" => BinOp::Add, "wrapping_sub" => BinOp::Sub, _ => BinOp::Mul };
                self.binop(st, op, &args[0], &args[1], t0.unwrap())?
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
                let op = match name { "unchecked_add" => BinOp::AddUnchecked, "unchecked_sub" => BinOp::SubUnchecked, _ => BinOp::MulUnchecked };
                self.binop(st, op, &args[0], &args[1], t0.unwrap())?
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match name { "add_with_overflow" => BinOp::AddWithOverflow, "sub_with_overflow" => BinOp::SubWithOverflow, _ => BinOp::MulWithOverflow };
                self.binop(st, op, &args[0], &args[1], t0.unwrap())?
            }
            "integer_max" | "integer_min" => { let (a, b) = (self.int(&args[0])?, self.int(&args[1])?); let a_le_b = self.le(st, &a, &b)?; Val::Int(if a_le_b == (name == "integer_max") { b } else { a }) }
            "unchecked_div" | "exact_div" => self.binop(st, BinOp::Div, &args[0], &args[1], t0.unwrap())?,
            "unchecked_rem" => self.binop(st, BinOp::Rem, &args[0], &args[1], t0.unwrap())?,
            "unchecked_shl" => self.binop(st, BinOp::Shl, &args[0], &args[1], t0.unwrap())?,
            "unchecked_shr" => self.binop(st, BinOp::Shr, &args[0], &args[1], t0.unwrap())?,
            "three_way_compare" => self.binop(st, BinOp::Cmp, &args[0], &args[1], t0.unwrap())?,
            "disjoint_bitor" => self.binop(st, BinOp::BitOr, &args[0], &args[1], t0.unwrap())?,
            "select_unpredictable" => { if self.truth(st, &args[0])? { args[1].clone() } else { args[2].clone() } }
            "assume" => { if !self.truth(st, &args[0])? { return Err(Stop::Dead) } Val::unit() }
            "likely" | "unlikely" | "black_box" => args[0].clone(),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => Val::unit(),
            "is_val_statically_known" => Val::b(false),
            "ub_checks" => Val::b(false),
            "overflow_checks" => Val::b(true),
            "contract_checks" => Val::b(false),
            "const_eval_select" => return Err(Stop::Unsup("const_eval_select".into())),
            "abort" => return Err(Stop::Panic("abort".into())),
            "unreachable" => return Err(Stop::Panic("unreachable_unchecked reached (undefined behaviour)".into())),
            "discriminant_value" => {
                let p = self.pl(&args[0])?;
                self.discriminant(st, &p, t0.unwrap())?
            }
            "transmute" | "transmute_unchecked" => self.transmute(st, args[0].clone(), gargs.type_at(0), gargs.type_at(1))?,
            "read_via_copy" | "volatile_load" => { let p = self.pl(&args[0])?; self.read(st, &p)? }
            "write_via_move" | "volatile_store" => { let p = self.pl(&args[0])?; self.write(st, &p, args[1].clone())?; Val::unit() }
            "typed_swap_nonoverlapping" => { let (p, q) = (self.pl(&args[0])?, self.pl(&args[1])?); self.swap(st, &p, &q)?; Val::unit() }
            "size_of" | "min_align_of" | "align_of" => {
                let t = t0.unwrap();
                match tcx_layout(self, t) { Some((s, a)) => Val::k(if name == "size_of" { s } else { a } as i128), None => self.unknown(st, rty, "size_of") }
            }
            "needs_drop" => Val::b(false),
            "type_id" | "type_name" | "caller_location" => Val::Top(rty),
            "slice_get_unchecked" => {
                let s = self.slice_arg(st, &args[0])?; let i = self.int(&args[1])?;
                if !self.lt(st, &i, &s.len)? { return Err(Stop::Panic("unchecked access out of bounds (undefined behaviour)".into())) }
                let p = self.ensure_cell(st, &s.p, &s.start.add(&i))?; Val::rf(p)
            }
            "ptr_metadata" => match &args[0] { Val::Slice(s) => Val::Int(s.len.clone()), _ => Val::unit() },
            "aggregate_raw_ptr" => match (&args[0], &args[1]) { (Val::Slice(s), Val::Int(n)) => Val::Slice(Rc::new(SliceV { p: s.p.clone(), start: s.start.clone(), len: n.clone() })), (x, _) => x.clone() },
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bswap" | "bitreverse" | "rotate_left" | "rotate_right" => {
                if let Some(k) = st.num.value(&self.int(&args[0])?) {
                    let b = self.bits(t0.unwrap());
                    let m = if b >= 127 { u128::MAX } else { (1u128 << b) - 1 };
                    let k = (k as u128) & m;
                    match name { "ctpop" => Val::k(k.count_ones() as i128), "ctlz" | "ctlz_nonzero" => Val::k(k.leading_zeros() as i128 - (128 - b as i128)), "cttz" | "cttz_nonzero" => Val::k((k.trailing_zeros().min(b)) as i128), _ => self.unknown(st, rty, name) }
                } else { self.unknown(st, rty, name) }
            }
            "fabsf32" | "fabsf64" | "fabs" | "floorf64" | "ceilf64" | "roundf64" | "truncf64" | "copysignf64" | "float_to_int_unchecked" => self.unknown(st, rty, "float intrinsic"),
            _ => {
                let _ = atys;
                if !must { return Ok(Model::NoModel) }
                return Err(Stop::Unsup(format!("intrinsic {}", name)));
            }
        };
        Ok(Model::Val(v))
    }
    pub fn swap(&mut self, st: &mut State<'tcx>, p: &PlaceV, q: &PlaceV) -> R<'tcx, ()> {
        let a = self.read(st, p)?; let b = self.read(st, q)?;
        self.write(st, p, b)?; self.write(st, q, a)
    }

    /// models by name; None if the call is to be analysed from its MIR
    fn named(&mut self, st: &mut State<'tcx>, key: &str, d: DefId, gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], atys: &[Ty<'tcx>], rty: Ty<'tcx>) -> R<'tcx, Option<M<'tcx>>> {
        let ok = |v: Val<'tcx>| -> R<'tcx, Option<M<'tcx>>> { Ok(Some(Model::Val(v))) };
        match key {
            "mem::swap" => { let (p, q) = (self.pl(&args[0])?, self.pl(&args[1])?); self.swap(st, &p, &q)?; return ok(Val::unit()) }
            "mem::replace" => { let p = self.pl(&args[0])?; let o = self.read(st, &p)?; self.write(st, &p, args[1].clone())?; return ok(o) }
            "mem::drop" | "mem::forget" => return ok(Val::unit()),
            "ptr::read" => { let p = self.pl(&args[0])?; return ok(self.read(st, &p)?) }
            "ptr::write" => { let p = self.pl(&args[0])?; self.write(st, &p, args[1].clone())?; return ok(Val::unit()) }
            "ptr::drop_in_place" => return ok(Val::unit()),
            "hint::assert_unchecked" => { if !self.truth(st, &args[0])? { return Err(Stop::Panic("assert_unchecked violated (undefined behaviour)".into())) } return ok(Val::unit()) }
            "hint::unreachable_unchecked" => return Err(Stop::Panic("unreachable_unchecked reached (undefined behaviour)".into())),
            _ => {}
        }
        // ---- vectors ----
        if let Some(m) = key.strip_prefix("vec::Vec.").or_else(|| key.strip_prefix("vec::Vec.")) {
            return self.vec_model(st, m, d, gargs, args, atys, rty);
        }
        if matches!(key, "&vec::Vec.IntoIterator.into_iter" | "&slice.IntoIterator.into_iter" | "&array.IntoIterator.into_iter") {
            // a reference to a sequence walks its elements by reference, whoever is referred to
            let s = self.slice_arg(st, &args[0])?;
            return ok(Val::It(Rc::new(ItV::Slice(s))));
        }
        match key {
            "boxed::Box.new" | "boxed::box_new" | "alloc::boxed::box_new" => { let p = self.new_alloc(st, args[0].clone()); return ok(Val::rf(p)) }
            "boxed::Box.new_uninit" => { let p = self.new_alloc(st, Val::Uninit); return ok(Val::rf(p)) }
            "boxed::box_assume_init_into_vec_unsafe" | "slice.into_vec" => {
                return match &args[0] {
                    Val::Ref(p) => { let v = self.read(st, p)?; match v { Val::Seq(_) => ok(v), v => Err(Stop::Unsup(format!("into_vec of {:?}", v))) } }
                    Val::Slice(s) => { let q = self.copy_range(st, s)?; ok(Val::Seq(Rc::new(q))) }
                    v => Err(Stop::Unsup(format!("into_vec of {:?}", v))),
                }
            }
            "vec::from_elem" => {
                let t = gargs.type_at(0);
                let n = self.int(&args[1])?;
                if let Some(k) = st.num.value(&n) { if k <= 8 { let segs = (0..k).map(|_| Seg::Cell(self.new_cell(), args[0].clone())).collect(); return ok(self.seq_val(t, segs)) } }
                return Ok(Some(self.stub("vec_from_elem", gargs_ty(self, &[t]), args.to_vec())?));
            }
            _ => {}
        }
        if let Some(m) = key.strip_prefix("slice.") { return self.slice_model(st, m, gargs, args, atys, rty) }
        if let Some(m) = key.strip_prefix("array.") {
            if m == "IntoIterator.into_iter" { if let Val::Seq(s) = &args[0] { return ok(Val::It(Rc::new(ItV::Own((**s).clone())))) } }
            if m.starts_with("Index") { let s = self.slice_arg(st, &args[0])?; let it = gargs.type_at(1); return self.index_model(st, &s, &args[1], it) }
            if m == "as_slice" || m == "as_mut_slice" { let s = self.slice_arg(st, &args[0])?; return ok(Val::Slice(Rc::new(s))) }
        }
        if key.starts_with("boxed::Box.") {
            let m = &key["boxed::Box.".len()..];
            match m {
                "Deref.deref" | "DerefMut.deref_mut" | "AsRef.as_ref" | "AsMut.as_mut" | "Borrow.borrow" => { let p = self.pl(&args[0])?; return ok(self.read(st, &p)?) }
                "FromIterator.from_iter" => {
                    if let TyKind::Slice(t) = gargs.type_at(0).boxed_ty().map(|t| t.kind()).unwrap_or(&TyKind::Never) { let it = *t; let g = gargs_ty(self, &[it, atys[0]]); return Ok(Some(self.stub("box_from_iter", g, args.to_vec())?)) }
                }
                "Clone.clone" => {
                    let p = self.pl(&args[0])?;
                    let v = self.read(st, &p)?;
                    match v {
                        Val::Slice(s) => {
                            let q = self.copy_range(st, &s)?; let n = Self::segs_len(&q.segs);
                            let a = self.new_alloc(st, Val::Seq(Rc::new(q)));
                            return ok(Val::Slice(Rc::new(SliceV { p: a, start: Lin::c(0), len: n })));
                        }
                        Val::Ref(q) => { let x = self.read(st, &q)?; let a = self.new_alloc(st, x); return ok(Val::rf(a)) }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        for pre in ["slice::Iter.", "slice::IterMut."] { if let Some(m) = key.strip_prefix(pre) { return self.iter_model(st, m, gargs, args, rty) } }
        for pre in ["vec::IntoIter.", "vec::Drain.", "array::IntoIter.", "into_iter::IntoIter.", "drain::Drain."] { if let Some(m) = key.strip_prefix(pre) { return self.own_model(st, m, args, rty) } }
        Ok(None)
    }

    fn index_model(&mut self, st: &mut State<'tcx>, s: &SliceV, i: &Val<'tcx>, it: Ty<'tcx>) -> R<'tcx, Option<M<'tcx>>> {
        match self.slice_get(st, s, i, it)? { Some(v) => Ok(Some(Model::Val(v))), None => Err(Stop::Panic("index out of bounds".into())) }
    }

    fn vec_model(&mut self, st: &mut State<'tcx>, m: &str, _d: DefId, gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], atys: &[Ty<'tcx>], rty: Ty<'tcx>) -> R<'tcx, Option<M<'tcx>>> {
        let ok = |v: Val<'tcx>| -> R<'tcx, Option<M<'tcx>>> { Ok(Some(Model::Val(v))) };
        let vt = gargs.types().next();
        // element type: first type argument of the impl, or of Self for trait methods
        let elem = match vt { Some(t) => self.is_vec(t).or_else(|| match t.kind() { TyKind::Ref(_, x, _) => self.is_vec(*x), _ => None }).unwrap_or(t), None => return Ok(None) };
        match m {
            "new" | "with_capacity" | "Default.default" => ok(self.seq_val(elem, vec![])),
            "len" => { let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?; ok(Val::Int(n)) }
            "is_empty" => { let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?; Ok(Some(Model::Val(Val::b(self.decide(st, &n)?)))) }
            "capacity" => { let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?; let c = st.nm().fresh(0, 1 << 60); self.assume(st, &n.sub(&c))?; ok(Val::Int(c)) }
            "reserve" | "shrink_to_fit" | "reserve_exact" | "shrink_to" => ok(Val::unit()),
            "push" => {
                let p = self.pl(&args[0])?;
                let mut s = (*self.get_seq(st, &p)?).clone();
                s.segs.push(Seg::Cell(self.new_cell(), args[1].clone()));
                self.set_seq(st, &p, s)?;
                ok(Val::unit())
            }
            "pop" => { let p = self.pl(&args[0])?; let v = self.own_next(st, &p, true)?; ok(Self::opt(v)) }
            "clear" => { let p = self.pl(&args[0])?; let s = self.get_seq(st, &p)?; let e = s.elem; self.set_seq(st, &p, SeqV { elem: e, segs: vec![] })?; ok(Val::unit()) }
            "truncate" => {
                let p = self.pl(&args[0])?; let k = self.int(&args[1])?; let n = self.seq_len(st, &p)?;
                if self.lt(st, &k, &n)? { self.take_range(st, &p, &k, &n)?; }
                ok(Val::unit())
            }
            "split_off" => { let p = self.pl(&args[0])?; let k = self.int(&args[1])?; let n = self.seq_len(st, &p)?; let segs = self.take_range(st, &p, &k, &n)?; ok(self.seq_val(elem, segs)) }
            "remove" | "swap_remove" => {
                let p = self.pl(&args[0])?; let k = self.int(&args[1])?;
                let n = self.seq_len(st, &p)?;
                if !self.lt(st, &k, &n)? { return Err(Stop::Panic("removal index out of bounds".into())) }
                let (id, pos) = self.ensure_cell_at(st, &p, &k)?;
                if m == "swap_remove" {
                    let last = n.addk(-1);
                    if !self.eq(st, &k, &last)? {
                        let q = self.ensure_cell(st, &p, &last)?;
                        let r = p.cell(id); self.swap(st, &q, &r)?;
                        let v = self.own_next(st, &p, true)?;
                        return ok(v.unwrap());
                    }
                }
                let v = self.peek(st, &p.cell(id)).unwrap().clone();
                let mut s = (*self.get_seq(st, &p)?).clone();
                s.segs.remove(pos);
                self.set_seq(st, &p, s)?;
                ok(v)
            }
            "insert" => {
                let p = self.pl(&args[0])?; let k = self.int(&args[1])?;
                let pos = self.cut(st, &p, &k)?;
                let mut s = (*self.get_seq(st, &p)?).clone();
                s.segs.insert(pos, Seg::Cell(self.new_cell(), args[2].clone()));
                self.set_seq(st, &p, s)?;
                ok(Val::unit())
            }
            "append" => {
                let (p, q) = (self.pl(&args[0])?, self.pl(&args[1])?);
                let b = (*self.get_seq(st, &q)?).clone();
                let mut a = (*self.get_seq(st, &p)?).clone();
                a.segs.extend(b.segs);
                self.set_seq(st, &p, a)?;
                self.set_seq(st, &q, SeqV { elem: b.elem, segs: vec![] })?;
                ok(Val::unit())
            }
            "drain" => {
                let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?;
                let (a, b) = self.range_of(st, &args[1], atys[1], &n)?;
                let segs = self.take_range(st, &p, &a, &b)?;
                ok(Val::It(Rc::new(ItV::Own(SeqV { elem, segs }))))
            }
            "as_slice" | "as_mut_slice" | "Deref.deref" | "DerefMut.deref_mut" | "AsRef.as_ref" | "AsMut.as_mut" | "Borrow.borrow" => { let s = self.slice_arg(st, &args[0])?; ok(Val::Slice(Rc::new(s))) }
            "Index.index" | "IndexMut.index_mut" => { let s = self.slice_arg(st, &args[0])?; let it = gargs.type_at(1); self.index_model(st, &s, &args[1], it) }
            "into_boxed_slice" => {
                let Val::Seq(s) = &args[0] else { return Err(Stop::Unsup("into_boxed_slice".into())) };
                let n = Self::segs_len(&s.segs);
                let p = self.new_alloc(st, args[0].clone());
                ok(Val::Slice(Rc::new(SliceV { p, start: Lin::c(0), len: n })))
            }
            "IntoIterator.into_iter" => { let Val::Seq(s) = &args[0] else { return Err(Stop::Unsup("into_iter".into())) }; ok(Val::It(Rc::new(ItV::Own((**s).clone())))) }
            "Clone.clone" => {
                let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?;
                let q = self.copy_range(st, &SliceV { p, start: Lin::c(0), len: n })?;
                ok(Val::Seq(Rc::new(q)))
            }
            "Clone.clone_from" => {
                let p = self.pl(&args[1])?; let n = self.seq_len(st, &p)?;
                let q = self.copy_range(st, &SliceV { p, start: Lin::c(0), len: n })?;
                let t = self.pl(&args[0])?; self.set_seq(st, &t, q)?;
                ok(Val::unit())
            }
            "extend_from_slice" => {
                let p = self.pl(&args[0])?; let s = self.slice_arg(st, &args[1])?;
                let q = self.copy_range(st, &s)?;
                let mut a = (*self.get_seq(st, &p)?).clone(); a.segs.extend(q.segs);
                self.set_seq(st, &p, a)?; ok(Val::unit())
            }
            "FromIterator.from_iter" => { let g = gargs_ty(self, &[elem, atys[0]]); Ok(Some(self.stub("vec_from_iter", g, args.to_vec())?)) }
            "Extend.extend" => {
                let it = atys[1];
                // extending from an iterator over copied references
                let g = gargs_ty(self, &[elem, it]);
                let by_ref = match gargs.types().nth(1).map(|t| t.kind()) { Some(TyKind::Ref(..)) => true, _ => false };
                Ok(Some(self.stub(if by_ref { "vec_extend_ref" } else { "vec_extend" }, g, args.to_vec())?))
            }
            "Extend.extend_one" => { let p = self.pl(&args[0])?; let mut s = (*self.get_seq(st, &p)?).clone(); s.segs.push(Seg::Cell(self.new_cell(), args[1].clone())); self.set_seq(st, &p, s)?; ok(Val::unit()) }
            "Extend.extend_reserve" => ok(Val::unit()),
            "resize" if st.unroll == 0 && { let n = self.int(&args[1])?; st.num.value(&n).is_none() } => {
                // an unknown number of copies is summarised
                let p = self.pl(&args[0])?; let k = self.int(&args[1])?; let n = self.seq_len(st, &p)?;
                if self.lt(st, &k, &n)? { self.take_range(st, &p, &k, &n)?; return ok(Val::unit()) }
                let inv = self.sat_inv(st, elem, &args[2]);
                let mut a = (*self.get_seq(st, &p)?).clone();
                a.segs.push(Seg::Run(k.sub(&n), RunK::Any { inv }));
                self.set_seq(st, &p, a)?; ok(Val::unit())
            }
            "resize" => { let g = gargs_ty(self, &[elem]); Ok(Some(self.stub("vec_resize", g, args.to_vec())?)) }
            "retain" => { let g = gargs_ty(self, &[elem, atys[1]]); Ok(Some(self.stub("vec_retain", g, args.to_vec())?)) }
            "retain_mut" => { let g = gargs_ty(self, &[elem, atys[1]]); Ok(Some(self.stub("vec_retain_mut", g, args.to_vec())?)) }
            "dedup_by" => { let g = gargs_ty(self, &[elem, atys[1]]); Ok(Some(self.stub("vec_dedup_by", g, args.to_vec())?)) }
            "dedup" => { let g = gargs_ty(self, &[elem]); Ok(Some(self.stub("vec_dedup", g, args.to_vec())?)) }
            "PartialEq.eq" => Ok(None),
            _ => { let _ = rty; Ok(None) }
        }
    }

    fn slice_model(&mut self, st: &mut State<'tcx>, m: &str, gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], atys: &[Ty<'tcx>], _rty: Ty<'tcx>) -> R<'tcx, Option<M<'tcx>>> {
        let ok = |v: Val<'tcx>| -> R<'tcx, Option<M<'tcx>>> { Ok(Some(Model::Val(v))) };
        match m {
            "iter" | "iter_mut" => { let s = self.slice_arg(st, &args[0])?; ok(Val::It(Rc::new(ItV::Slice(s)))) }
            "len" => { let s = self.slice_arg(st, &args[0])?; ok(Val::Int(s.len)) }
            "is_empty" => { let s = self.slice_arg(st, &args[0])?; ok(Val::b(self.decide(st, &s.len)?)) }
            "get" | "get_mut" => { let s = self.slice_arg(st, &args[0])?; let v = self.slice_get(st, &s, &args[1], atys[1])?; ok(Self::opt(v)) }
            "get_unchecked" | "get_unchecked_mut" => {
                *self.checks.entry("unchecked accesses".into()).or_insert(0) += 1;
                let s = self.slice_arg(st, &args[0])?;
                match self.slice_get(st, &s, &args[1], atys[1])? { Some(v) => ok(v), None => Err(Stop::Panic("unchecked access out of bounds (undefined behaviour)".into())) }
            }
            "Index.index" | "IndexMut.index_mut" => { let s = self.slice_arg(st, &args[0])?; let it = gargs.type_at(1); self.index_model(st, &s, &args[1], it) }
            "first" | "first_mut" | "last" | "last_mut" => {
                let s = self.slice_arg(st, &args[0])?;
                if self.decide(st, &s.len)? { return ok(Val::none()) }
                let i = if m.starts_with("first") { s.start.clone() } else { s.start.add(&s.len).addk(-1) };
                let p = self.ensure_cell(st, &s.p, &i)?;
                ok(Val::some(Val::rf(p)))
            }
            "split_first" | "split_last" | "split_first_mut" | "split_last_mut" => {
                let s = self.slice_arg(st, &args[0])?;
                if self.decide(st, &s.len)? { return ok(Val::none()) }
                let f = m.starts_with("split_first");
                let i = if f { s.start.clone() } else { s.start.add(&s.len).addk(-1) };
                let p = self.ensure_cell(st, &s.p, &i)?;
                let rest = SliceV { p: s.p.clone(), start: if f { s.start.addk(1) } else { s.start.clone() }, len: s.len.addk(-1) };
                ok(Val::some(Val::agg(0, vec![Val::rf(p), Val::Slice(Rc::new(rest))])))
            }
            "split_at" | "split_at_mut" | "split_at_unchecked" => {
                let s = self.slice_arg(st, &args[0])?; let k = self.int(&args[1])?;
                if !self.le(st, &k, &s.len)? { return Err(Stop::Panic("split index out of bounds".into())) }
                let a = SliceV { p: s.p.clone(), start: s.start.clone(), len: k.clone() };
                let b = SliceV { p: s.p.clone(), start: s.start.add(&k), len: s.len.sub(&k) };
                ok(Val::agg(0, vec![Val::Slice(Rc::new(a)), Val::Slice(Rc::new(b))]))
            }
            "swap" => {
                let s = self.slice_arg(st, &args[0])?; let (i, j) = (self.int(&args[1])?, self.int(&args[2])?);
                if !self.lt(st, &i, &s.len)? || !self.lt(st, &j, &s.len)? { return Err(Stop::Panic("index out of bounds".into())) }
                if self.eq(st, &i, &j)? { return ok(Val::unit()) }
                let p = self.ensure_cell(st, &s.p, &s.start.add(&i))?;
                let q = self.ensure_cell(st, &s.p, &s.start.add(&j))?;
                self.swap(st, &p, &q)?;
                ok(Val::unit())
            }
            "reverse" => {
                let s = self.slice_arg(st, &args[0])?;
                let n = self.seq_len(st, &s.p)?;
                if !(st.num.eq0(&s.start) && st.num.eq0(&s.len.sub(&n))) { let t = gargs.type_at(0); let g = gargs_ty(self, &[t]); return Ok(Some(self.stub("slice_reverse", g, args.to_vec())?)) }
                let q = self.get_seq(st, &s.p)?;
                let segs = Self::rev_segs(q.segs.clone());
                self.set_seq(st, &s.p, SeqV { elem: q.elem, segs })?;
                ok(Val::unit())
            }
            "to_vec" => { let s = self.slice_arg(st, &args[0])?; let q = self.copy_range(st, &s)?; ok(Val::Seq(Rc::new(q))) }
            "fill" if st.unroll == 0 && matches!(&args[0], Val::Slice(_)) && self.summarise_fill(st, &args[0], &args[1])? => ok(Val::unit()),
            "fill" => { let t = gargs.type_at(0); let g = gargs_ty(self, &[t]); Ok(Some(self.stub("slice_fill", g, args.to_vec())?)) }
            "partition_point" => { let t = gargs.type_at(0); let g = gargs_ty(self, &[t, atys[1]]); Ok(Some(self.stub("slice_partition_point", g, args.to_vec())?)) }
            "binary_search_by" => { let t = gargs.type_at(0); let g = gargs_ty(self, &[t, atys[1]]); Ok(Some(self.stub("slice_binary_search_by", g, args.to_vec())?)) }
            "contains" => { let t = gargs.type_at(0); let g = gargs_ty(self, &[t]); Ok(Some(self.stub("slice_contains", g, args.to_vec())?)) }
            "PartialEq.eq" => {
                let t = match gargs.type_at(0).kind() { TyKind::Slice(t) => *t, _ => return Ok(None) };
                let u = match gargs.type_at(1).kind() { TyKind::Slice(t) => *t, _ => return Ok(None) };
                let g = gargs_ty(self, &[t, u]); Ok(Some(self.stub("slice_eq", g, args.to_vec())?))
            }
            _ => Ok(None),
        }
    }

    fn iter_model(&mut self, st: &mut State<'tcx>, m: &str, _gargs: GenericArgsRef<'tcx>, args: &[Val<'tcx>], _rty: Ty<'tcx>) -> R<'tcx, Option<M<'tcx>>> {
        let ok = |v: Val<'tcx>| -> R<'tcx, Option<M<'tcx>>> { Ok(Some(Model::Val(v))) };
        let get = |e: &mut Self, st: &mut State<'tcx>| -> R<'tcx, SliceV> { e.slice_arg(st, &args[0]) };
        match m {
            "Iterator.next" | "DoubleEndedIterator.next_back" => {
                let s = get(self, st)?; let p = self.pl(&args[0])?;
                if self.decide(st, &s.len)? { return ok(Val::none()) }
                let back = m.ends_with("back");
                let i = if back { s.start.add(&s.len).addk(-1) } else { s.start.clone() };
                let c = self.ensure_cell(st, &s.p, &i)?;
                let ns = SliceV { p: s.p.clone(), start: if back { s.start.clone() } else { s.start.addk(1) }, len: s.len.addk(-1) };
                self.write(st, &p, Val::It(Rc::new(ItV::Slice(ns))))?;
                ok(Val::some(Val::rf(c)))
            }
            "Iterator.size_hint" => { let s = get(self, st)?; ok(Val::agg(0, vec![Val::Int(s.len.clone()), Val::some(Val::Int(s.len))])) }
            "ExactSizeIterator.len" | "Iterator.count" => {
                let s = match &args[0] { Val::It(i) => match &**i { ItV::Slice(s) => s.clone(), _ => return Ok(None) }, _ => get(self, st)? };
                ok(Val::Int(s.len))
            }
            "ExactSizeIterator.is_empty" => { let s = get(self, st)?; ok(Val::b(self.decide(st, &s.len)?)) }
            "as_slice" => { let s = get(self, st)?; ok(Val::Slice(Rc::new(s))) }
            "Clone.clone" => { let p = self.pl(&args[0])?; ok(self.read(st, &p)?) }
            "Iterator.__iterator_get_unchecked" => {
                let s = get(self, st)?; let i = self.int(&args[1])?;
                let c = self.ensure_cell(st, &s.p, &s.start.add(&i))?;
                ok(Val::rf(c))
            }
            "IntoIterator.into_iter" => ok(args[0].clone()),
            _ => Ok(None),
        }
    }
    fn own_model(&mut self, st: &mut State<'tcx>, m: &str, args: &[Val<'tcx>], _rty: Ty<'tcx>) -> R<'tcx, Option<M<'tcx>>> {
        let ok = |v: Val<'tcx>| -> R<'tcx, Option<M<'tcx>>> { Ok(Some(Model::Val(v))) };
        match m {
            "Iterator.next" | "DoubleEndedIterator.next_back" => { let p = self.pl(&args[0])?; let v = self.own_next(st, &p, m.ends_with("back"))?; ok(Self::opt(v)) }
            "Iterator.size_hint" => { let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?; ok(Val::agg(0, vec![Val::Int(n.clone()), Val::some(Val::Int(n))])) }
            "ExactSizeIterator.len" => { let p = self.pl(&args[0])?; let n = self.seq_len(st, &p)?; ok(Val::Int(n)) }
            "Iterator.count" => match &args[0] { Val::It(i) => match &**i { ItV::Own(s) => ok(Val::Int(Self::segs_len(&s.segs))), _ => Ok(None) }, _ => Ok(None) },
            "as_slice" | "as_mut_slice" => { let s = self.slice_arg(st, &args[0])?; ok(Val::Slice(Rc::new(s))) }
            "Clone.clone" => { let p = self.pl(&args[0])?; ok(self.read(st, &p)?) }
            "IntoIterator.into_iter" => ok(args[0].clone()),
            "Iterator.__iterator_get_unchecked" => { let p = self.pl(&args[0])?; let i = self.int(&args[1])?; let c = self.ensure_cell(st, &p, &i)?; ok(self.read(st, &c)?) }
            _ => Ok(None),
        }
    }
}
fn tcx_layout<'tcx>(e: &Engine<'tcx>, t: Ty<'tcx>) -> Option<(u64, u64)> {
    e.tcx.layout_of(e.env.as_query_input(t)).ok().map(|l| (l.size.bytes(), l.align.abi.bytes()))
}
pub fn gargs_ty<'tcx>(e: &Engine<'tcx>, ts: &[Ty<'tcx>]) -> GenericArgsRef<'tcx> {
    e.tcx.mk_args_from_iter(ts.iter().map(|t| rustc_middle::ty::GenericArg::from(*t)))
}
