#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
use rustc_driver as rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod audit;
mod big;
mod flow;
mod head;
mod interp;
mod lp;
mod models;
mod num;
mod rt;
mod seq;
mod val;

use interp::*;
use rustc_middle::ty::{Instance, TyCtxt};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};
use val::*;

struct Cb;
fn env(n: &str, d: u64) -> u64 { std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d) }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        if std::env::var("CHRONO_AUDIT").is_ok() { println!("AUDIT {}", audit::audit(tcx)); return rustc_driver_impl::Compilation::Stop }
        analyse(tcx);
        rustc_driver_impl::Compilation::Stop
    }
}

fn analyse(tcx: TyCtxt<'_>) {
    let prefix = std::env::var("CHRONO_ROOTS").unwrap_or_default();
    let prefixes: Vec<&str> = prefix.split(',').filter(|s| !s.is_empty()).collect();
    let exact = std::env::var("CHRONO_EXACT").is_ok();
    let shard = env("CHRONO_SHARD", 0); let shards = env("CHRONO_SHARDS", 1);
    let mut roots = vec![]; let mut stubs = HashMap::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) { continue }
        let name = tcx.item_name(d).to_string();
        let path = tcx.def_path_str(d);
        if path.contains("stubs::") { stubs.insert(name.clone(), d); continue }
        if tcx.generics_of(d).count() == 0 && prefixes.iter().any(|p| if exact { name == *p } else { name.starts_with(p) }) { roots.push((name, d)) }
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    if std::env::var("CHRONO_LIST").is_ok() { for (n, _) in &roots { println!("root {}", n) } return }
    let repo_crate = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "chronologic");
    let mut eng = Engine {
        bounded: std::env::var("CHRONO_BOUNDED").is_ok(), small: env("CHRONO_BOUNDED", 3) as i128, memory: env("CHRONO_MB", 3500),
        tcx, env: rustc_middle::ty::TypingEnv::fully_monomorphized(),
        fns: Default::default(), work: Default::default(), versions: vec![], seq: 0, heads: HashMap::new(), events: BTreeMap::new(), checks: BTreeMap::new(),
        visited: Default::default(), havocs: BTreeMap::new(), stubs, paths: Default::default(), root_name: String::new(),
        nstates: 0, nsteps: 0, nheads: 0, nwiden: 0, npanic: 0, finished: 0, limit: env("CHRONO_LIMIT", 3_000_000),
        deadline: Instant::now(), verbose: env("CHRONO_VERBOSE", 0) as u32, cell_ctr: 1 << 20, alloc_ctr: 1 << 20,
        const_cache: Default::default(), quot: HashMap::new(), spec_crate: rustc_span::def_id::LOCAL_CRATE, repo_crate,
    };
    let mut out_roots = vec![];
    for (i, (name, d)) in roots.iter().enumerate() {
        if i as u64 % shards != shard { continue }
        let t0 = Instant::now();
        eng.root_name = name.clone();
        eng.heads.clear(); eng.versions.clear(); eng.work.clear(); eng.events.clear(); eng.checks.clear(); eng.havocs.clear(); eng.visited.clear();
        eng.quot.clear(); eng.limit = env("CHRONO_LIMIT", 3_000_000);
        eng.nstates = 0; eng.nsteps = 0; eng.nheads = 0; eng.nwiden = 0; eng.npanic = 0; eng.finished = 0;
        eng.deadline = t0 + Duration::from_secs(env("CHRONO_SECS", 600));
        eng.fns.clear();
        let inst = Instance::mono(tcx, *d);
        let f = eng.fninfo(inst).expect("root without body");
        let n = f.body.local_decls.len();
        let frame = Frame { f, bb: rustc_middle::mir::START_BLOCK, si: 0, locals: vec![Val::Uninit; n], dest: None, target: None, post: Post::None, head_done: false };
        let st = State { frames: vec![Rc::new(frame)], heap: Rc::new(BTreeMap::new()), num: Rc::new(num::Store::new()), ghosts: Rc::new(vec![]), trace: None, panic_ok: false, approx: None, lossy: false, turns: 0, cuts: 0, unroll: 0, tag: None, choices: vec![], cursor: 0, last_fn: None };
        eng.run(st);
        let secs = t0.elapsed().as_secs_f64();
        if std::env::var("CHRONO_QUIET").is_err() {
            eprintln!("{} states {} steps {} heads {} widen {} finished {} panics {} events {} lp {} {:.2}s", name, eng.nstates, eng.nsteps, eng.nheads, eng.nwiden, eng.finished, eng.npanic, eng.events.len(), num::LP_CALLS.with(|c| *c.borrow()), secs);
            for e in eng.events.values() { eprintln!("   ! {} at {} [{} {}]{}", e.key, e.loc, e.func, e.fnloc, e.approx.as_ref().map(|a| format!(" (approx: {})", a)).unwrap_or_default()); if e.lossy { eprintln!("     (merged)") } if eng.verbose > 0 { for t in &e.trace { eprintln!("        {}", t) } } }
            if eng.verbose > 0 { for (k, v) in &eng.checks { eprintln!("   ok {} x{}", k, v) } for (k, v) in &eng.havocs { eprintln!("   havoc {} x{}", k, v) } }
        }
        let evs: Vec<String> = eng.events.values().map(|e| format!("{{\"key\":{},\"msg\":{},\"loc\":{},\"func\":{},\"fnloc\":{},\"approx\":{},\"lossy\":{},\"trace\":{}}}", js(&e.key), js(&e.msg), js(&e.loc), js(&e.func), js(&e.fnloc), e.approx.as_ref().map_or("null".into(), |a| js(a)), e.lossy, jl(&e.trace))).collect();
        let chk: Vec<String> = eng.checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let hav: Vec<String> = eng.havocs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let vis: Vec<String> = eng.visited.iter().cloned().collect();
        let reached: Vec<String> = eng.fns.values().filter(|f| f.kind == FnKind::Repo).map(|f| f.name.clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let _ = vis;
        out_roots.push(format!("{{\"root\":{},\"states\":{},\"steps\":{},\"heads\":{},\"widenings\":{},\"finished\":{},\"panic_paths\":{},\"secs\":{:.2},\"events\":[{}],\"checks\":{{{}}},\"havocs\":{{{}}},\"functions\":{}}}",
            js(name), eng.nstates, eng.nsteps, eng.nheads, eng.nwiden, eng.finished, eng.npanic, secs, evs.join(","), chk.join(","), hav.join(","), jl(&reached)));
    }
    if let Ok(p) = std::env::var("CHRONO_OUT") { std::fs::write(p, format!("{{\"roots\":[{}]}}\n", out_roots.join(",\n"))).unwrap(); }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
