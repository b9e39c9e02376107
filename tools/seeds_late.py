from seedlib import seed, refused, PRE as SETPRE
S="src/graph/storage.rs"; K="src/graph/constraints.rs"; H="src/graph/scheduler.rs"; P="src/graph/propagation.rs"
U="src/iter/union.rs"; C="src/iter/compl.rs"; N="src/iter/intersect.rs"; V="src/wins/timevalue.rs"; W="src/wins/timeset.rs"
GPRE = """use chronologic::*; use chronologic::graph::*;
fn t(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
fn at(x: i64) -> Timestamp { Timestamp::from_origin(t(x)) }
fn iv(a: i64, b: i64) -> TimeSpan { TimeSpan::new(t(a), t(b)) }
"""
# C20
seed("cells-order-out","C20",[(S,"            let ij = unsafe { self.lower(i,j) };","            let ij = unsafe { self.lower(i,j.min(self.size)) };"),(S,"        if i >= self.size() || j >= self.size() {","        if i >= self.size && j >= self.size {")],
 "fn main() { let mut g = TimeGraph::with_size(3); g.propagate(((0,2), iv(3,4))).unwrap(); for n in 3..2000 { assert!(g.instant_cmp(0, n).is_none()); assert!(g.instant_cmp(n, 1).is_none()); } }",
 "the order of an instant of the graph and of one outside it","a cell outside the matrix is read", pre=GPRE)
seed("cells-last-instant","C20",[(H,"        assert![(i as usize) < self.schedule.len(), \"index out of bounds\"];","        assert![i <= self.constraints.size(), \"index out of bounds\"];")],
 "fn main() { let g = TimeGraph::with_size(3); let r = std::panic::catch_unwind(|| { let mut s = TimeScheduler::new(&g); let _ = s.retain(3, at(0)..=at(9)); }); assert!(r.is_err()); }",
 "restricting the instant just after the last one","the memory after the scheduling is read and written", pre=GPRE)
seed("cells-extend-to","C20",[(P,"                        if max >= self.size() { self.resize(max+1) }","                        if k.to() >= self.size() { self.resize(k.to()+1) }\n                        if k.from() > self.size() { self.resize(max+1) }")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.extend([((2,0), iv(3,4)), ((1,0), iv(0,9))]).unwrap(); assert_eq!(g.size(), 3); }",
 "a list whose first constraint starts from the instant just after the last one of the graph","cells are written out of the matrix", pre=GPRE)
seed("set-single-empty","C20",[(W,"        (self.0.len() == 1) && unsafe { self.0.get_unchecked(0).is_singleton() }","        (self.0.len() <= 1) && unsafe { self.0.get_unchecked(0).is_singleton() }")],
 "fn main() { let e = S::empty(); let v: S = set(&[(3,3)]); let w = v.clone() & set(&[(5,5)]); assert!(!e.is_singleton()); assert!(!w.is_singleton()); assert!(v.is_singleton()); let mut x = v; x.clear_(); assert!(!x.is_singleton()); }\ntrait Cl { fn clear_(&mut self); } impl Cl for S { fn clear_(&mut self) { let _ = self.truncate_before(t(9)); } }",
 "a set that has become empty after holding one point","memory out of the list of the set is read")
# C24
seed("hint-only-i","C24",[(U,"            UnionState::OnlyJ => { self.j.size_hint() }","            UnionState::OnlyJ => { self.i.size_hint() }")],
 "fn main() { let a = set(&[(0,1)]); let b = set(&[(3,4),(8,9),(12,13)]); let mut u = a.into_iter().union(b.into_iter()); let mut left = 4; loop { let (l,h) = u.size_hint(); assert!(l <= left && h.map_or(true, |h| h >= left)); if u.next().is_none() { break } left -= 1; } }",
 "reading the hint in the middle of the iteration, once the first operand is exhausted","the upper size hint is 0 with intervals still to come")
seed("hint-inter-min","C24",[(N,"                        return (0, Some(imax.saturating_add(jmax)));","                        return (0, Some(imax.max(jmax)));")],
 "fn main() { let a = set(&[(0,10),(12,20)]); let b = set(&[(5,15),(18,30)]); for k in 0..3 { let mut u = a.clone().into_iter().intersection(b.clone().into_iter()); for _ in 0..k { u.next(); } let h = u.size_hint().1; let n = u.count(); assert!(h.map_or(true, |h| h >= n)); } }",
 "operands whose intervals straddle each other","the upper size hint does not count the interval kept aside")
seed("hint-compl-none","C24",[(C,"            (min.saturating_sub(1), max.and","            (min, max.and")],
 "fn main() { let a: S = set(&[(0,2)]) | S::from_iter([TimeInterval::from(..=t(-5))]) | S::from_iter([TimeInterval::from(t(9)..)]); let c = a.into_iter().complementary(); let l = c.size_hint().0; assert!(l <= c.count()); }",
 "a set unbounded on both sides","the lower size hint is above the number of intervals")
seed("spent-compl","C24",[(C,"            self.lower = I::TimePoint::INFINITE;\n            Some(result)","            self.lower = self.lower.just_before();\n            Some(result)")],
 "fn main() { let mut c = set(&[(0,2),(5,7)]).into_iter().complementary(); for _ in 0..3 { assert!(c.next().is_some()); } for _ in 0..3 { assert!(c.next().is_none()); } }",
 "asking again after the last interval of the complement of a set bounded above","the last interval is given again and again, one tick longer each time")
0 and seed("spent-union","C24",[(U,"            UnionState::End => { (0, Some(0)) }","            UnionState::End => { self.i.size_hint() }"),(U,"                            self.state = UnionState::OnlyJ;","                            self.state = UnionState::OnlyJ; ")],
 "fn main() {}","","")
seed("spent-inter","C24",[(N,"            InterState::End => { (0, Some(0)) }","            InterState::End => { let (n, _) = self.i.size_hint(); (n.min(1), Some(n)) }")],
 "fn main() { let a = set(&[(0,1),(20,21),(30,31),(40,41)]); let b = set(&[(0,1),(5,6)]); let mut u = a.into_iter().intersection(b.into_iter()); while u.next().is_some() {} assert_eq!(u.size_hint().0, 0); }",
 "the size hint of a spent intersection whose first operand still has intervals","the lower size hint promises an interval that never comes")
# C27
seed("chrono-shift","C27",[(V,"            ((value.0 as i128 * 1_000_000_000) >> SUBSEC_BITLEN) as i64","            (value.0 >> SUBSEC_BITLEN) * 1_000_000_000 + ((value.0 % (1 << SUBSEC_BITLEN)) * 1_000_000_000 >> SUBSEC_BITLEN)")],
 "fn main() { let d: chrono::Duration = TimeValue::from_millis(-1500).to_duration(); assert_eq!(d.num_milliseconds().abs(), 1500); }",
 "a negative value that is not a whole number of seconds","the duration is one second off")

seed("std-edge","C27",[(V,"            let ns = t.subsec_nanos() as i64;","            let ns = t.subsec_micros() as i64 * 1000;")],
 "fn main() { let d = std::time::Duration::new(3, 999_999_999); let v = TimeValue::from(d); let e: std::time::Duration = v.into(); assert!(e.abs_diff(d) <= std::time::Duration::from_nanos(2)); }",
 "a duration with nanoseconds","the nanoseconds are dropped")
seed("std-round","C27",[(V,"        time::Duration::new(value.as_secs() as u64, value.subsec_nanos() as u32)","        let micros = value.as_micros() as u64; time::Duration::from_micros(micros)")],
 "fn main() { let d = std::time::Duration::new(3, 999_999_900); let v = TimeValue::from(d); let e: std::time::Duration = v.into(); assert!(e.abs_diff(d) <= std::time::Duration::from_nanos(2)); }",
 "a time value that is not a whole number of microseconds","the nanoseconds are dropped")
# C28
F="src/seq/forward.rs"; B="src/seq/backward.rs"; M="src/seq/mod.rs"
QPRE = """use chronologic::*;
fn t(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
fn at(x: i64) -> Timestamp { Timestamp::from_origin(t(x)) }
"""
seed("seq-floor","C28",[(M,"        TimeSeqForward::new(self.ceil(period), period)","        TimeSeqForward::new(self.floor(period) + period, period)")],
 "fn main() { assert_eq!(at(30).forward_periods(t(10)).next(), Some(at(30))); assert_eq!(at(31).forward_periods(t(10)).next(), Some(at(40))); }",
 "a timestamp which is a multiple of the period","the sequence starts one period late", pre=QPRE)
seed("seq-infinite","C28",[(F,"        (!self.t.is_future_infinite()).then_some(self.t)","        (self.t.is_finite() || self.step > TimeValue::from_ticks(i64::MAX / 2)).then_some(self.t)")],
 "fn main() { let mut s = at(7).forward_sequence(t(i64::MAX - 20)); assert_eq!(s.next(), Some(at(7))); assert_eq!(s.next(), Some(at(i64::MAX - 13))); assert_eq!(s.next(), None); }",
 "a period of more than half the range","the sequence goes on at the infinite", pre=QPRE)
seed("seq-last","C28",[(B,"        let n = self.len();\n        (n > 0)","        let n = self.size_hint().0.min(u32::MAX as usize);\n        (n > 0)")],
 "fn main() { let s = at(0).backward_sequence(t(1)); assert_eq!(s.last(), Some(at(-i64::MAX + 1))); }",
 "a sequence of more than 2^32 timestamps","the last timestamp is far from the end", pre=QPRE)
seed("seq-count","C28",[(F,"    fn count(self) -> usize {\n        self.len()","    fn count(self) -> usize {\n        self.len() & u32::MAX as usize")],
 "fn main() { assert_eq!(at(0).forward_sequence(t(1)).count(), i64::MAX as usize); }",
 "a sequence of more than 2^32 timestamps","the count is truncated", pre=QPRE)

# C26
I="src/wins/timeinterval.rs"
refused("open-bounds","C26",[(I,"{ pub(crate) lower:T, pub(crate) upper:T }","{ pub(crate) lower:T, pub upper:T }")],
 "fn main() { let mut i = iv(0, 9); i.upper = t(-5); println!(\"{}\", i.is_empty()); }","fn main() { let i = iv(0, 9); println!(\"{}\", i.is_empty()); }",
 "a program that writes the upper bound of an interval","an interval can be made non canonical without unsafe")
refused("safe-unchecked","C26",[(I,"    pub unsafe fn new_unchecked(","    pub fn new_unchecked(")],
 "fn main() { let i = I::new_unchecked(t(9), t(5)); println!(\"{}\", i.is_empty()); }","fn main() { let i = unsafe { I::new_unchecked(t(5), t(9)) }; println!(\"{}\", i.is_empty()); }",
 "a program that builds an interval from inverted bounds in safe code","an interval can be made non canonical without unsafe")
refused("slots-mut","C26",[(H,"    pub fn schedule(&self) -> &[TimeSlots] { &self.schedule }","    pub fn schedule(&mut self) -> &mut [TimeSlots] { &mut self.schedule }")],
 "fn main() { let g = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&g); s.schedule()[0] = TimeSlots::empty(); println!(\"{}\", s.schedule().len()); }",
 "fn main() { let g = TimeGraph::with_size(2); let mut s = TimeScheduler::new(&g); let _ = s.retain(0, at(0)..=at(9)); println!(\"{}\", s.schedule().len()); }",
 "a program that writes in the sets of a scheduler","the sets of a scheduler can be enlarged from outside", pre=GPRE)
refused("graph-detached","C26",[(K,"    pub fn iter(&self) -> impl Iterator<Item=TimeGraphConstraint<'_>> {","    pub fn iter<'a>(&self) -> impl Iterator<Item=TimeGraphConstraint<'a>> + use<'a> {"),(K,"        TimeConstraintIter { graph: self, i:0, j:0 }","        let graph: *const TimeGraph = self;\n        TimeConstraintIter { graph: unsafe { &*graph }, i: 0, j: 0 }")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.propagate(((0,1), iv(1,2))).unwrap(); let k = g.iter().next(); g.resize(0); println!(\"{:?}\", k); }",
 "fn main() { let mut g = TimeGraph::with_size(2); g.propagate(((0,1), iv(1,2))).unwrap(); let k = g.iter().count(); g.resize(0); println!(\"{:?}\", k); }",
 "a program that resizes the graph while it holds a constraint of it","a constraint reads the cells of a graph that has been changed", pre=GPRE)
