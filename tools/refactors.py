"""Behaviour-preserving edits on which every check has to stay quiet: refactors.py [ID...]"""
import os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
S, P, H, C, U, N, X, R, G = "src/graph/storage.rs", "src/graph/propagation.rs", "src/graph/scheduler.rs", "src/iter/compl.rs", "src/iter/union.rs", "src/iter/intersect.rs", "src/wins/timeset.rs", "src/relns/", "src/graph/constraints.rs"
E = {
"reset-loops": ("C21 C26", [(S, """        self.data.fill(-TimeValue::INFINITE);
        (0..self.size).for_each(|i| unsafe {
            // setting all constraint (i,i) to 0 (constraint from i to itseltf)
            *self.lower_mut(i,i) = TimeValue::default();
        });
    }

    /// Create""", """        for cell in self.data.iter_mut() { *cell = -TimeValue::INFINITE; }
        self.zero_diagonal(0);
    }

    fn zero_diagonal(&mut self, first: Instant)
    {
        let mut i = first;
        while i < self.size {
            unsafe { *self.lower_mut(i,i) = TimeValue::default(); }
            i += 1;
        }
    }

    /// Create"""), (S, """        (self.size..n).for_each(|i| unsafe {
            // setting all constraint (i,i) to 0 (constraint from i to itseltf)
            *self.lower_mut(i,i) = TimeValue::default();
        });
        self.size = n;
""", """        let former = self.size;
        self.size = n;
        self.zero_diagonal(former);
""")]),
"timespan-lower": ("C16 C19", [(S, """                TimeInterval {
                    lower: unsafe { *self.data.get_unchecked((i*i + j) as usize)},
                    upper: - unsafe { *self.data.get_unchecked((i*(i+2) - j) as usize) },
                }
""", """                let (below, above) = unsafe { (self.lower(i as Instant, j as Instant), self.lower(j as Instant, i as Instant)) };
                TimeInterval { lower: below, upper: -above }
""")]),
"merge-index": ("C19", [(P, """        self.data.iter_mut()
            .zip(graph.data)
            .for_each(|(a,b)| if *a < b { *a = b; change = true; });
""", """        for k in 0..graph.data.len() {
            if self.data[k] < graph.data[k] {
                self.data[k] = graph.data[k];
                change = true;
            }
        }
""")]),
"tighten-helper": ("C18 C19 C17", [(P, """                let val: TimeValue = self.lower(i,io)  + io_jo;
                let k = self.lower_mut(i, jo);
                if val > *k { *k = val; }
""", """                let val: TimeValue = self.lower(i,io)  + io_jo;
                self.tighten(i, jo, val);
"""), (P, """                let val: TimeValue = j_jo + self.lower(jo,i);
                let k = self.lower_mut(j, i);
                if val > *k { *k = val; }
""", """                let val: TimeValue = j_jo + self.lower(jo,i);
                self.tighten(j, i, val);
"""), (P, """                    let x = unsafe { self.lower_mut(i,j) };
                    if val > *x { *x = val; }
""", """                    unsafe { self.tighten(i, j, val); }
"""), (P, """    unsafe fn propagate_lower_bound(""", """    // keeps the greatest of two lower bounds
    unsafe fn tighten(&mut self, i:Instant, j:Instant, val:TimeValue) -> bool
    {
        let bound = self.lower_mut(i,j);
        if *bound < val { *bound = val; true } else { false }
    }

    unsafe fn propagate_lower_bound(""")]),
"global-while": ("C19", [(P, """        for k in 0..self.size() {
            for i in 0..self.size() {
                for j in 0..self.size() {
""", """        let n = self.size();
        let mut k = 0;
        while k < n {
            for i in 0..n {
                for j in 0..n {
"""), (P, """                    self.resize(0);
                    return Err(TimeInconsistencyError::Fatal)
                }
            }
        }
        Ok(TimePropagation::Propagated)
""", """                    self.resize(0);
                    return Err(TimeInconsistencyError::Fatal)
                }
            }
            k += 1;
        }
        Ok(TimePropagation::Propagated)
""")]),
"extend-for": ("C19", [(P, """                iter.for_each(|k| {
                        if k.is_empty() { consistent = false; return }
                        let max = k.from().max(k.to());
                        assert!(max < Instant::MAX, "index out of bounds");
                        if max >= self.size() { self.resize(max+1) }

                        let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                        if *lower < k.lower_bound() {
                            *lower = k.lower_bound();
                        }
                        // SAFETY: if lower exists (checked just above), the upper does...
                        let upper = unsafe { self.lower_mut(k.to(), k.from()) };
                        if *upper < -k.upper_bound() {
                            *upper = -k.upper_bound();
                        }
                    });
""", """                for k in iter {
                    if k.is_empty() { consistent = false; continue }
                    let (i, j) = (k.from(), k.to());
                    let max = if i < j { j } else { i };
                    assert!(max < Instant::MAX, "index out of bounds");
                    if self.size() <= max { self.resize(max+1) }
                    let (below, above) = (k.lower_bound(), -k.upper_bound());
                    unsafe {
                        *self.lower_mut(i, j) = below.max(self.lower(i, j));
                        *self.lower_mut(j, i) = above.max(self.lower(j, i));
                    }
                }
""")]),
"deadline-for": ("C22", [(H, """            let result = (0..self.schedule.len() as u32)
                .try_fold(TimePropagation::Unchanged,
                      |result, i|
                          Ok(match self.retain(i, ..=deadline)? {
                              TimePropagation::Unchanged => { result }
                              TimePropagation::Propagated => { TimePropagation::Propagated }
                          }));
            if result.is_err() { self.schedule = former; }
            result
""", """            let mut result = TimePropagation::Unchanged;
            for i in 0..self.schedule.len() as u32 {
                match self.retain(i, ..=deadline) {
                    Ok(TimePropagation::Unchanged) => {}
                    Ok(TimePropagation::Propagated) => { result = TimePropagation::Propagated; }
                    Err(e) => { self.schedule = former; return Err(e); }
                }
            }
            Ok(result)
""")]),
"propagate-sched-for": ("C22", [(H, """        unsafe {
            self.constraints
                .constraints_from(i)
                .for_each(|k| {
                    let j = k.to() as usize;
                    *self.schedule.get_unchecked_mut(j) =
                        self.schedule.get_unchecked(j).iter()
                            .intersection(self.schedule.get_unchecked(i as usize)
                                .iter()
                                .translation(&TimeInterval::from(k)))
                            .collect();
                });
        }
""", """        let graph = self.constraints;
        for k in graph.constraints_from(i) {
            let j = k.to() as usize;
            let reachable = self.schedule[i as usize].iter().translation(&TimeInterval::from(k));
            let kept = self.schedule[j].iter().intersection(reachable).collect();
            self.schedule[j] = kept;
        }
""")]),
"compl-loop": ("C06 C05", [(C, """        for next in self.iter.by_ref()
        {
            if self.lower < next.lower_bound() {
                let result = TimeInterval {
                    lower: self.lower,
                    upper: next.lower_bound().just_before()
                };
                self.lower = next.upper_bound().just_after();
                return Some(result);
            }
        }
""", """        while let Some(next) = self.iter.next()
        {
            if next.lower_bound() <= self.lower { continue; }
            let gap = TimeInterval { lower: self.lower, upper: next.lower_bound().just_before() };
            self.lower = next.upper_bound().just_after();
            return Some(gap);
        }
""")]),
"collect-loop": ("C07 C04", [(X, """            Some(first) => iter.fold(first.into(), |mut r, i| {
                // very most of the time, time iterators are chronologically sorted
                // so if the gap is more than one tick, just add the new convex at the end
                if i.lower_bound() > r.upper_bound().just_after() {
                    r.0.push(i)
                } else {
                    r |= i
                }
                r
            })
""", """            Some(first) => {
                let mut all = Self(vec![first]);
                for i in iter {
                    let separate = all.upper_bound().just_after() < i.lower_bound();
                    if separate { all.0.push(i); } else { all |= i; }
                }
                all
            }
""")]),
"truncate-index": ("C09", [(X, """        match self.0.iter().position(|i| i.upper_bound() >= lower)
        {
            Some(0) => {""", """        let mut first = 0;
        while first < self.0.len() && self.0[first].upper_bound() < lower { first += 1; }
        match if first < self.0.len() { Some(first) } else { None }
        {
            Some(0) => {"""), (X, """                let _ = self.0.drain(0..pos);
""", """                self.0.drain(..pos);
""")]),
"contain-loop": ("C08 C05", [(R + "contain.rs", """        self.0.iter()
            .find(|ts| ts.upper_bound() >= rhs.lower_bound())
            .map(|ts| ts.contains(rhs))
            .unwrap_or(false)
""", """        for ts in &self.0 {
            if ts.upper_bound() >= rhs.lower_bound() { return ts.contains(rhs); }
        }
        false
"""), (R + "contain.rs", """        rhs.into_iter().all(|tw| self.contains(&tw))
""", """        for tw in rhs.0.iter() { if !self.contains(tw) { return false; } }
        true
""")]),
"contain-search": ("C08", [(R + "contain.rs", """        self.0.iter()
            .find(|ts| ts.upper_bound() >= rhs.lower_bound())
            .map(|ts| ts.contains(rhs))
            .unwrap_or(false)
""", """        let k = self.0.partition_point(|ts| ts.upper_bound() < rhs.lower_bound());
        k < self.0.len() && self.0[k].contains(rhs)
""")]),
"overlap-any": ("C08", [(R + "overlap.rs", """        self.0.iter()
            .find(|ts| ts.upper_bound() >= rhs.lower_bound())
            .map(|ts| ts.lower_bound() <= rhs.upper_bound())
            .unwrap_or(false)
""", """        self.0.iter().any(|ts| ts.overlaps(rhs))
"""), (R + "overlap.rs", """        rhs.into_iter().any(|tw| self.overlaps(&tw))
""", """        // both lists are sorted: advance the one which ends first
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < rhs.0.len() {
            if self.0[i].upper < rhs.0[j].lower { i += 1; }
            else if rhs.0[j].upper < self.0[i].lower { j += 1; }
            else { return true; }
        }
        false
""")]),
"eq-loop": ("C23", [(R + "ordering.rs", """        self.iter().eq(other.iter())
""", """        let (mut a, mut b) = (self.iter(), other.iter());
        loop {
            match (a.next(), b.next()) {
                (None, None) => return true,
                (Some(x), Some(y)) if x.lower == y.lower && x.upper == y.upper => {}
                _ => return false,
            }
        }
""")]),
"union-helper": ("C04", [(U, """                        Some(i) if i.upper <= self.tmp.upper => {
                            // i:     [------------------]       or           [-----------]
                            // tmp:                [--------]    or    [----------------------]
                            //=>tmp:  [---------------------]    or    [----------------------]
                            if self.tmp.lower > i.lower { self.tmp.lower = i.lower; }
                        },
                        Some(i) => {
                            // i:     [------------------]      or           [----------------]
                            // tmp:         [--------]          or     [------------------]
                            //=>tmp   [------------------]      or     [----------------------]
                            self.state = UnionState::WaitJ;
                            if self.tmp.lower > i.lower { self.tmp.lower = i.lower; }
                            self.tmp.upper = i.upper;
                        },
""", """                        Some(i) => {
                            if self.absorb(i) { self.state = UnionState::WaitJ; }
                        },
"""), (U, """        Self { i: i.fuse(), j: j.fuse(), state: UnionState::Init, tmp:TimeInterval::all() }
    }
""", """        Self { i: i.fuse(), j: j.fuse(), state: UnionState::Init, tmp:TimeInterval::all() }
    }

    // extends the temporary interval; is the new one the last to end?
    fn absorb(&mut self, x: TimeInterval<I::TimePoint>) -> bool {
        let later = self.tmp.upper < x.upper;
        self.tmp.lower = self.tmp.lower.min(x.lower);
        if later { self.tmp.upper = x.upper; }
        later
    }
""")]),
"inter-helper": ("C05", [(N, """                        Some(mut i) if i.upper <= self.tmp.upper => {
                            // i:     [------------------]       or           [-----------]
                            // tmp:                [--------]    or    [----------------------]
                            if self.tmp.lower > i.lower { i.lower = self.tmp.lower; }
                            return Some(i);
                        },
                        Some(mut i) => {
                            // i:     [------------------]      or           [----------------]
                            // tmp:         [--------]          or     [------------------]
                            self.state = InterState::WaitJ;
                            if self.tmp.lower < i.lower { self.tmp.lower = i.lower; }
                            swap(&mut i, &mut self.tmp);
                            return Some(i)
                        },
""", """                        Some(i) => {
                            let common = TimeInterval { lower: i.lower.max(self.tmp.lower), upper: i.upper.min(self.tmp.upper) };
                            if i.upper > self.tmp.upper {
                                self.state = InterState::WaitJ;
                                self.tmp = i;
                            }
                            return Some(common);
                        },
""")]),
"neg-loop": ("C14", [(X, """        Self(self.0.iter().rev().map(|&t| -t).collect())
""", """        let mut list = Vec::with_capacity(self.0.len());
        for t in self.0.into_iter().rev() { list.push(-t); }
        Self(list)
""")]),
"shrink-loop": ("C21", [(S, """       self.size = (0..self.size).rev()
            .find(|&i| {
                let i = i as usize;
                (i*i..=i*i+2*i).filter(|&x| x != i*i+i)
                    .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
            }).map(|i| i+1)
            .unwrap_or(0);
""", """        while self.size > 0 {
            let i = self.size as usize - 1;
            let mut used = false;
            for x in i*i..=i*i+2*i {
                if x != i*i+i && !self.data[x].is_past_infinite() { used = true; break; }
            }
            if used { break; }
            self.size -= 1;
        }
""")]),
"propagate-locals": ("C17 C18", [(P, """                    if k.lower_bound() <= self.lower(k.from(), k.to()) {""", """                    let (from, to, lower) = (k.from(), k.to(), k.lower_bound());
                    if lower <= self.lower(from, to) {"""), (P, """                            *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
                            self.propagate_lower_bound(k.to(), k.from());
                            Ok(TimePropagation::Propagated)
                        }
                    } else {""", """                            let above = -k.upper_bound();
                            *self.lower_mut(to, from) = above;
                            self.propagate_lower_bound(to, from);
                            Ok(TimePropagation::Propagated)
                        }
                    } else {""")]),
}
def main():
    only = [a for a in sys.argv[1:]]
    for i, (props, edits) in E.items():
        if only and i not in only: continue
        W = f"/tmp/rf_{i}"; shutil.rmtree(W, ignore_errors=True); run(f"cp -a /repo {W}"); run("git checkout -q -- .", cwd=W)
        ok = True
        for f, a, b in edits:
            s = open(f"{W}/{f}").read()
            if s.count(a) != 1: print(i, "BAD EDIT", f, s.count(a), a[:60]); ok = False; break
            open(f"{W}/{f}", "w").write(s.replace(a, b))
        if ok:
            t = run("cargo test --offline -q 2>&1 | grep -E 'test result|^error' -A4 | head -8", cwd=W, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/rftgt"})
            print(i, "tests", " ".join(t.stdout.split())[:70], flush=True)
            for p in props.split():
                t0 = time.time()
                r = run(f"python3 {V}/check.py {p}", env={**os.environ, "CHRONO_REPO": W, "CHRONO_TARGET": "/tmp/rfchk", "CHRONO_EVIDENCE": "/tmp/rfev"})
                und = [l for l in r.stdout.split("\n") if l.startswith("UNDECIDED")]
                print(f"   {p} exit {r.returncode} {time.time()-t0:.0f}s undecided {len(und)}", flush=True)
                for u in und[:2]: print("      ", u[:220])
                if r.returncode: print(r.stdout[-700:])
        shutil.rmtree(W, ignore_errors=True)
if __name__ == "__main__": main()
