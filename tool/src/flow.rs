//! Per-body dataflow facts: retreating-edge loop heads and liveness of locals.
use rustc_middle::mir::visit::{PlaceContext, Visitor, MutatingUseContext, NonUseContext};
use rustc_middle::mir::*;

pub fn loop_heads(body: &Body<'_>) -> Vec<bool> {
    let n = body.basic_blocks.len();
    let mut heads = vec![false; n];
    let mut color = vec![0u8; n];
    // iterative DFS
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![];
    let succ = |b: usize| -> Vec<usize> { normal_succ(body, b) };
    stack.push((0, succ(0), 0)); color[0] = 1;
    while let Some((b, s, i)) = stack.last_mut() {
        if *i < s.len() {
            let t = s[*i]; *i += 1;
            match color[t] { 0 => { color[t] = 1; let ss = succ(t); stack.push((t, ss, 0)); } 1 => heads[t] = true, _ => {} }
        } else { color[*b] = 2; stack.pop(); }
    }
    heads
}
pub fn normal_succ(body: &Body<'_>, b: usize) -> Vec<usize> {
    let t = body.basic_blocks[BasicBlock::from_usize(b)].terminator();
    match &t.kind {
        TerminatorKind::Goto { target, .. } => vec![target.as_usize()],
        TerminatorKind::FalseEdge { real_target, .. } => vec![real_target.as_usize()],
        TerminatorKind::FalseUnwind { real_target, .. } => vec![real_target.as_usize()],
        TerminatorKind::Drop { target, .. } => vec![target.as_usize()],
        TerminatorKind::Assert { target, .. } => vec![target.as_usize()],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets().iter().map(|t| t.as_usize()).collect(),
        TerminatorKind::Call { target, .. } => target.iter().map(|t| t.as_usize()).collect(),
        _ => vec![],
    }
}
/// position of each block in a reverse post order in which the blocks of a loop come before its exits
pub fn order(body: &Body<'_>, heads: &[bool]) -> Vec<u32> {
    let n = body.basic_blocks.len();
    let succ: Vec<Vec<usize>> = (0..n).map(|b| normal_succ(body, b)).collect();
    let mut reach = vec![vec![false; n]; n];
    for b in 0..n {
        let mut w = vec![b];
        while let Some(x) = w.pop() { for &t in &succ[x] { if !reach[b][t] { reach[b][t] = true; w.push(t) } } }
    }
    let common = |a: usize, b: usize| (0..n).filter(|&h| heads[h] && reach[h][a] && reach[a][h] && (b == h || (reach[h][b] && reach[b][h]))).count();
    let mut seen = vec![false; n];
    let mut post: Vec<usize> = vec![];
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![];
    let ord = |b: usize| { let mut s = succ[b].clone(); s.sort_by_key(|&t| common(b, t)); s };
    seen[0] = true; stack.push((0, ord(0), 0));
    while let Some((b, s, i)) = stack.last_mut() {
        if *i < s.len() { let t = s[*i]; *i += 1; if !seen[t] { seen[t] = true; let o = ord(t); stack.push((t, o, 0)); } }
        else { post.push(*b); stack.pop(); }
    }
    let mut v = vec![n as u32; n];
    for (k, b) in post.iter().rev().enumerate() { v[*b] = k as u32 }
    v
}
struct Gk { gen_: Vec<bool>, kill: Vec<bool> }
impl<'tcx> Visitor<'tcx> for Gk {
    fn visit_local(&mut self, l: Local, c: PlaceContext, _: Location) {
        let i = l.as_usize();
        match c {
            PlaceContext::MutatingUse(MutatingUseContext::Store | MutatingUseContext::Call) => { self.kill[i] = true; self.gen_[i] = false }
            PlaceContext::NonUse(NonUseContext::StorageDead | NonUseContext::StorageLive) => { self.kill[i] = true; self.gen_[i] = false }
            PlaceContext::NonUse(_) => {}
            _ => self.gen_[i] = true,
        }
    }
    fn visit_place(&mut self, p: &Place<'tcx>, c: PlaceContext, loc: Location) {
        if p.projection.is_empty() { self.visit_local(p.local, c, loc) } else {
            self.gen_[p.local.as_usize()] = true;
            for e in p.projection.iter() { if let ProjectionElem::Index(l) = e { self.gen_[l.as_usize()] = true } }
        }
    }
}
pub fn liveness(body: &Body<'_>) -> Vec<Vec<bool>> {
    let n = body.basic_blocks.len(); let m = body.local_decls.len();
    // per statement backward transfer, composed per block
    let mut tr: Vec<(Vec<bool>, Vec<bool>)> = vec![];
    for (bb, data) in body.basic_blocks.iter_enumerated() {
        let (mut gen_, mut kill) = (vec![false; m], vec![false; m]);
        let apply = |g: Gk, gen_: &mut Vec<bool>, kill: &mut Vec<bool>| { for i in 0..m { if g.kill[i] { gen_[i] = false; kill[i] = true } if g.gen_[i] { gen_[i] = true } } };
        // terminator first (backward); uses in call arguments happen before the destination is written
        let loc = Location { block: bb, statement_index: data.statements.len() };
        let mut g = Gk { gen_: vec![false; m], kill: vec![false; m] };
        match &data.terminator().kind {
            TerminatorKind::Call { func, args, destination, .. } => {
                if destination.projection.is_empty() { g.kill[destination.local.as_usize()] = true } else { g.gen_[destination.local.as_usize()] = true }
                let mut u = Gk { gen_: vec![false; m], kill: vec![false; m] };
                u.visit_operand(func, loc);
                for a in args.iter() { u.visit_operand(&a.node, loc) }
                for i in 0..m { if u.gen_[i] { g.gen_[i] = true } }
            }
            TerminatorKind::Return => { g.gen_[0] = true }
            TerminatorKind::Drop { .. } => {}
            _ => g.visit_terminator(data.terminator(), loc),
        }
        apply(g, &mut gen_, &mut kill);
        for (i, s) in data.statements.iter().enumerate().rev() {
            let loc = Location { block: bb, statement_index: i };
            let mut g = Gk { gen_: vec![false; m], kill: vec![false; m] };
            if let StatementKind::Assign(b) = &s.kind {
                if b.0.projection.is_empty() { g.kill[b.0.local.as_usize()] = true } else {
                    g.gen_[b.0.local.as_usize()] = true;
                    for e in b.0.projection.iter() { if let ProjectionElem::Index(l) = e { g.gen_[l.as_usize()] = true } }
                }
                let mut u = Gk { gen_: vec![false; m], kill: vec![false; m] };
                u.visit_rvalue(&b.1, loc);
                for i in 0..m { if u.gen_[i] { g.gen_[i] = true } }
            } else { g.visit_statement(s, loc) }
            apply(g, &mut gen_, &mut kill);
        }
        tr.push((gen_, kill));
    }
    let mut live = vec![vec![false; m]; n];
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            let mut out = vec![false; m];
            for s in normal_succ(body, b) { for i in 0..m { out[i] |= live[s][i] } }
            for i in 0..m { let v = tr[b].0[i] || (out[i] && !tr[b].1[i]); if v && !live[b][i] { live[b][i] = true; ch = true } }
        }
        if !ch { break }
    }
    live
}
