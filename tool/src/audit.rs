//! What code outside the crate can name: the rules of C26 over the public surface of the crate.
use crate::{jl, js};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CrateNum, DefId};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn loc(tcx: TyCtxt<'_>, d: DefId) -> String { tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d)) }
/// types of the crate under a mutable reference or a mutable raw pointer, or a standard type holding some
fn leaks<'tcx>(tcx: TyCtxt<'tcx>, krate: CrateNum, t: Ty<'tcx>) -> Option<String> {
    for a in t.walk() {
        let Some(t) = a.as_type() else { continue };
        let inner = match t.kind() {
            ty::Ref(_, x, m) if m.is_mut() => *x,
            ty::RawPtr(x, m) if m.is_mut() => *x,
            // views which hand out mutable references, whatever their name
            ty::Adt(d, g) if d.did().krate != krate && { let n = tcx.item_name(d.did()).to_string(); n.ends_with("Mut") || n == "Drain" || n == "Cell" || n == "RefCell" || n == "UnsafeCell" } => match g.types().next() { Some(x) => x, None => continue },
            _ => continue,
        };
        // a mutable reference to a type parameter or to an opaque `Self` writes nothing of the crate
        for b in inner.walk() {
            if let Some(x) = b.as_type() { if let ty::Adt(d, _) = x.kind() { if d.did().krate == krate { return Some(format!("{}", t)) } } }
        }
    }
    None
}
struct Audit<'tcx> { tcx: TyCtxt<'tcx>, krate: CrateNum, bad: Vec<(String, String, String)>, seen: BTreeMap<&'static str, u64>, fns: BTreeSet<String> }
impl<'tcx> Audit<'tcx> {
    fn count(&mut self, k: &'static str) { *self.seen.entry(k).or_insert(0) += 1 }
    fn say(&mut self, d: DefId, m: String) { let p = self.tcx.def_path_str(d); let l = loc(self.tcx, d); self.bad.push((p, m, l)) }
    fn adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        if def.is_union() { self.say(d, "a public union can be read as raw parts".into()) }
        self.count("types");
        for f in def.all_fields() {
            self.count("fields");
            let open = if def.is_enum() { true } else { f.vis.is_public() };
            if open && !def.is_enum() { self.say(d, format!("field `{}` can be written by code outside the crate", f.name)) }
        }
        // a shared reference allows no change: no field, however deep, is a cell
        let env = ty::TypingEnv::non_body_analysis(tcx, d);
        for f in def.all_fields() {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            for a in t.walk() {
                let Some(t) = a.as_type() else { continue };
                let ty::Adt(x, _) = t.kind() else { continue };
                if x.did().krate == self.krate { continue }
                let n = tcx.item_name(x.did()).to_string();
                let cell = n.contains("Cell") || n.starts_with("Atomic") || n.starts_with("Once") || n.starts_with("Lazy") || n == "Mutex" || n == "RwLock";
                if cell || !t.has_param() && !t.is_freeze(tcx, env) { self.say(d, format!("field `{}` can change through a shared reference", f.name)) }
            }
        }
    }
    fn sig(&mut self, d: DefId) {
        let tcx = self.tcx;
        let s = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        self.fns.insert(tcx.def_path_str(d));
        self.count("functions");
        if !s.safety().is_safe() { self.count("unsafe functions"); return }
        if let Some(t) = leaks(tcx, self.krate, s.skip_binder().output()) { self.say(d, format!("a safe function hands out `{}`", t)) }
        if self.raw(d) { self.say(d, "a safe function named unchecked".into()) }
        // closures given by the caller that receive a mutable reference
        for (p, _) in tcx.clauses_of(d).instantiate_identity(tcx).into_iter().map(|(p, s)| (p.skip_norm_wip(), s)) {
            let t = match p.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => t.trait_ref.args.types().collect::<Vec<_>>(),
                ty::ClauseKind::Projection(p) => p.term.as_type().into_iter().collect(),
                _ => continue,
            };
            for t in t.into_iter() { if t.is_param(0) { continue } if let Some(t) = leaks(tcx, self.krate, t) { self.say(d, format!("a safe function gives `{}` to the closure of its caller", t)) } }
        }
    }
    fn raw(&self, d: DefId) -> bool { self.tcx.item_name(d).as_str().contains("unchecked") }
    fn module(&mut self, m: DefId, done: &mut HashSet<DefId>) {
        let tcx = self.tcx;
        if !done.insert(m) { return }
        for c in tcx.module_children(m) {
            if !c.vis.is_public() { continue }
            let Res::Def(k, d) = c.res else { continue };
            if d.krate != self.krate { continue }
            match k {
                DefKind::Mod => self.module(d, done),
                                DefKind::Fn => if done.insert(d) { self.sig(d) },
                DefKind::Static { .. } => { self.count("statics"); if done.insert(d) && (tcx.is_mutable_static(d)) { self.say(d, "a mutable static is public".into()) } }
                DefKind::Trait => if done.insert(d) {
                    for &i in tcx.associated_item_def_ids(d) { if matches!(tcx.def_kind(i), DefKind::AssocFn) { self.sig(i) } }
                },
                _ => {}
            }
        }
    }
    fn impls(&mut self) {
        let tcx = self.tcx;
        // inherent ones of every type of the crate, reachable by value even when its name is not
        let mut adts = BTreeMap::new();
        let mut stack = vec![self.krate.as_def_id()];
        let mut done = HashSet::new();
        while let Some(m) = stack.pop() {
            if !done.insert(m) { continue }
            for c in tcx.module_children(m) {
                let Res::Def(k, d) = c.res else { continue };
                if d.krate != self.krate { continue }
                match k { DefKind::Mod => stack.push(d), DefKind::Struct | DefKind::Enum | DefKind::Union => { adts.insert(tcx.def_path_str(d), d); } _ => {} }
            }
        }
        for (_, d) in adts {
            self.adt(d);
            for &i in tcx.inherent_impls(d) {
                for &f in tcx.associated_item_def_ids(i) {
                    if matches!(tcx.def_kind(f), DefKind::AssocFn) && tcx.visibility(f).is_public() { self.sig(f) }
                }
            }
        }
        for &i in tcx.trait_impls_in_crate(self.krate) {
            self.count("trait implementations");
            for &f in tcx.associated_item_def_ids(i) {
                match tcx.def_kind(f) {
                    DefKind::AssocFn => self.sig(f),
                    DefKind::AssocTy => {
                        let t = tcx.type_of(f).instantiate_identity().skip_norm_wip();
                        if let Some(t) = leaks(tcx, self.krate, t) { self.say(f, format!("a trait implementation hands out `{}`", t)) }
                    }
                    _ => {}
                }
            }
        }
    }
}
pub fn audit(tcx: TyCtxt<'_>) -> String {
    let Some(krate) = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "chronologic") else { return "{\"error\":\"the crate was not found\"}".into() };
    let mut a = Audit { tcx, krate, bad: vec![], seen: BTreeMap::new(), fns: BTreeSet::new() };
    a.module(krate.as_def_id(), &mut HashSet::new());
    a.impls();
    let bad: Vec<String> = a.bad.iter().map(|(p, m, l)| format!("{{\"item\":{},\"msg\":{},\"loc\":{}}}", js(p), js(m), js(l))).collect();
    let seen: Vec<String> = a.seen.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{\"bad\":[{}],\"seen\":{{{}}},\"functions\":{}}}", bad.join(","), seen.join(","), jl(&a.fns.into_iter().collect::<Vec<_>>()))
}
