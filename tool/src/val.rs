//! Abstract values, places and states.
use crate::num::*;
use rustc_middle::mir::{self, BasicBlock, Body, Place};
use rustc_middle::ty::{Instance, Ty};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Root { Local(u32, u32), Alloc(u32) }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum PE { F(u32), Cell(u32) }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PlaceV { pub root: Root, pub path: Vec<PE> }
impl PlaceV {
    pub fn f(&self, i: u32) -> PlaceV { let mut p = self.clone(); p.path.push(PE::F(i)); p }
    pub fn cell(&self, i: u32) -> PlaceV { let mut p = self.clone(); p.path.push(PE::Cell(i)); p }
}
#[derive(Clone, Debug)]
pub struct SliceV { pub p: PlaceV, pub start: Lin, pub len: Lin }

#[derive(Clone, Debug)]
pub struct AggV<'tcx> { pub variant: u32, pub fields: Vec<Val<'tcx>> }

#[derive(Clone, Debug)]
pub enum RunK {
    /// sorted canonical intervals; lowers >= lo, uppers <= hi, per-ghost-window hit flags
    Canon { lo: Lin, hi: Lin, hits: Vec<u8>, rev: bool },
    /// arbitrary values of the element type (satisfying the type's own invariant if `inv`)
    Any { inv: bool },
}
#[derive(Clone, Debug)]
pub enum Seg<'tcx> { Cell(u32, Val<'tcx>), Run(Lin, RunK) }
#[derive(Clone, Debug)]
pub struct SeqV<'tcx> { pub elem: Ty<'tcx>, pub segs: Vec<Seg<'tcx>> }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ItK { Ref, Copy, Own }
#[derive(Clone, Debug)]
pub enum ItV<'tcx> {
    /// slice::Iter / IterMut
    Slice(SliceV),
    /// vec::IntoIter, Drain, array::IntoIter: owned remaining elements
    Own(SeqV<'tcx>),
    /// slice::Windows / ChunksExact-like : window size
    Windows(SliceV, i128),
}

#[derive(Clone, Debug)]
pub enum Val<'tcx> {
    Int(Lin),
    Agg(Rc<AggV<'tcx>>),
    Ref(Rc<PlaceV>),
    Slice(Rc<SliceV>),
    Seq(Rc<SeqV<'tcx>>),
    It(Rc<ItV<'tcx>>),
    Str(Rc<str>),
    Top(Ty<'tcx>),
    Uninit,
}
impl<'tcx> Val<'tcx> {
    pub fn agg(variant: u32, fields: Vec<Val<'tcx>>) -> Val<'tcx> { Val::Agg(Rc::new(AggV { variant, fields })) }
    pub fn unit() -> Val<'tcx> { Val::agg(0, vec![]) }
    pub fn k(c: i128) -> Val<'tcx> { Val::Int(Lin::c(c)) }
    pub fn b(b: bool) -> Val<'tcx> { Val::k(b as i128) }
    pub fn some(v: Val<'tcx>) -> Val<'tcx> { Val::agg(1, vec![v]) }
    pub fn none() -> Val<'tcx> { Val::agg(0, vec![]) }
    pub fn rf(p: PlaceV) -> Val<'tcx> { Val::Ref(Rc::new(p)) }
}

pub struct FnInfo<'tcx> {
    pub inst: Instance<'tcx>,
    pub id: usize,
    pub body: Body<'tcx>,
    pub name: String,
    pub kind: FnKind,
    pub heads: Vec<bool>,
    pub order: Vec<u32>,
    pub live_in: Vec<Vec<bool>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FnKind { Repo, Spec, Other }

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub f: Rc<FnInfo<'tcx>>,
    pub bb: BasicBlock,
    pub si: usize,
    pub locals: Vec<Val<'tcx>>,
    /// where the caller wants the result
    pub dest: Option<Place<'tcx>>,
    pub target: Option<BasicBlock>,
    /// post-processing of the returned value
    pub post: Post,
    pub head_done: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Post { None }

pub struct TraceNode { pub span: Span, pub what: &'static str, pub prev: Option<Rc<TraceNode>>, pub depth: u32 }

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Rc<Frame<'tcx>>>,
    pub heap: Rc<BTreeMap<u32, Val<'tcx>>>,
    pub num: Rc<Store>,
    pub ghosts: Rc<Vec<(Lin, Lin)>>,
    /// loop heads passed through without abstraction that remain
    pub unroll: u32,
    pub trace: Option<Rc<TraceNode>>,
    pub panic_ok: bool,
    pub approx: Option<Rc<str>>,
    /// the state stands for several executions merged at a loop head
    pub lossy: bool,
    /// loop heads passed so far (bounded mode)
    pub turns: u32,
    /// facts about monomials already added for these symbols
    pub cuts: u32,
    /// the loop-head entry (and its version) this state comes from
    pub tag: Option<(u32, u32)>,
    /// alternatives taken by the current step
    pub choices: Vec<u32>,
    pub cursor: usize,
    /// repository function that most recently handed its result to the specification
    pub last_fn: Option<Rc<FnInfo<'tcx>>>,
}
impl<'tcx> State<'tcx> {
    pub fn top(&self) -> &Frame<'tcx> { self.frames.last().unwrap() }
    pub fn topm(&mut self) -> &mut Frame<'tcx> { Rc::make_mut(self.frames.last_mut().unwrap()) }
    pub fn nm(&mut self) -> &mut Store { Rc::make_mut(&mut self.num) }
    pub fn depth(&self) -> u32 { self.frames.len() as u32 - 1 }
    pub fn span(&self) -> Span {
        let f = self.top();
        let bd = &f.f.body.basic_blocks[f.bb];
        if f.si < bd.statements.len() { bd.statements[f.si].source_info.span } else { bd.terminator().source_info.span }
    }
}

pub enum Stop<'tcx> {
    Fork(Vec<State<'tcx>>),
    Panic(String),
    Dead,
    Unsup(String),
}
pub type R<'tcx, T> = Result<T, Stop<'tcx>>;
pub enum Loc { P(PlaceV), W(SliceV) }
#[allow(dead_code)]
pub fn _unused(_: mir::Local) {}
