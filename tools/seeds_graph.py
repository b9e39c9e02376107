from seedlib import seed
P="src/graph/propagation.rs"; S="src/graph/storage.rs"; K="src/graph/constraints.rs"; H="src/graph/scheduler.rs"; TR="src/ops/transl.rs"; TI="src/iter/transl.rs"
PRE = """use chronologic::*; use chronologic::graph::*;
fn t(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
fn at(x: i64) -> Timestamp { Timestamp::from_origin(t(x)) }
fn iv(a: i64, b: i64) -> TimeSpan { TimeSpan::new(t(a), t(b)) }
"""
def g(*a): seed(*a, pre=PRE)
g("graph-first-half","C17",[(P,"            for i in 0..self.size() {\n                let val: TimeValue = self.lower(i,io)  + io_jo;","            for i in 0..=io.max(jo) {\n                let val: TimeValue = self.lower(i,io)  + io_jo;")],
 "fn main() { let mut g = TimeGraph::with_size(3); g.propagate(((2,0), iv(5,9))).unwrap(); g.propagate(((0,1), t(3)..)).unwrap(); assert_eq!(g.timespan(2,1).lower_bound(), t(8)); }",
 "a constraint between two instants that are both before a third one which is already constrained","the constraint is not composed with the bounds that start from later instants")
g("graph-one-tick","C18",[(P,"                        } else if self.lower(k.from(), k.to()) > k.upper_bound() {","                        } else if self.lower(k.from(), k.to()) - TimeValue::from_ticks(1) > k.upper_bound() {")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.propagate(((0,1), iv(5,9))).unwrap(); assert!(g.propagate(((0,1), iv(2,4))).is_err()); assert_eq!(g.timespan(0,1), iv(5,9)); }",
 "a constraint that ends exactly one tick before the stored lower bound","an inconsistent constraint is accepted")
g("graph-half-stored","C18",[(P,"                        if self.lower(k.to(), k.from()) > -k.lower_bound() {","                        if std::mem::replace(self.lower_mut(k.from(), k.to()), k.lower_bound()) > k.lower_bound() || self.lower(k.to(), k.from()) > -k.lower_bound() {")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.propagate(((0,1), iv(5,9))).unwrap(); assert!(g.propagate(((0,1), iv(10,20))).is_err()); assert_eq!(g.timespan(0,1), iv(5,9)); }",
 "a constraint that begins after the stored upper bound","a rejected constraint is left in the graph")
g("graph-self-last","C19",[(P,"                for j in 0..self.size() {\n                    let val: TimeValue = unsafe { self.lower(i,k)+self.lower(k,j) };","                if i == k { continue }\n                for j in 0..self.size() {\n                    let val: TimeValue = unsafe { self.lower(i,k)+self.lower(k,j) };")],
 "fn main() { let mut g = TimeGraph::with_size(1); assert!(g.extend([((0,0), iv(1,2)), ((0,0), iv(1,3))]).is_err()); }",
 "a graph of a single instant given constraints of the instant with itself","an instant forced to differ from itself is accepted")
g("graph-upper-last","C19",[(P,"                        if *upper < -k.upper_bound() {","                        if *upper == -<TimeValue as crate::TimePoint>::INFINITE || k.is_low_bounded() && *upper < -k.upper_bound() {")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.extend([((0,1), t(0)..=t(9)), ((0,1), t(0)..=t(8))]).unwrap(); g.extend([((0,1), ..=t(5)), ((1,0), ..=t(0))]).unwrap(); assert_eq!(g.timespan(0,1), iv(0,5)); }",
 "a list with a constraint that only bounds from above a pair which is already bounded","a given upper bound is ignored")
g("graph-merge-flag","C19",[(P,"            .for_each(|(a,b)| if *a < b { *a = b; change = true; });","            .for_each(|(a,b)| if *a < b { change |= *a != -<TimeValue as crate::TimePoint>::INFINITE; *a = b; });")],
 "fn main() { let mut g = TimeGraph::with_size(3); g.propagate(((0,1), iv(5,9))).unwrap(); let mut h = TimeGraph::with_size(3); h.propagate(((1,2), iv(1,2))).unwrap(); g.merge(h).unwrap(); assert_eq!(g.timespan(0,2), iv(6,11)); }",
 "two graphs whose constraints are about different pairs","the merged graph is not closed under composition")
g("graph-shrink-last","C21",[(S,"                (i*i..=i*i+2*i).filter(|&x| x != i*i+i)","                (i*i..i*i+2*i).filter(|&x| x != i*i+i)")],
 "fn main() { let mut g = TimeGraph::with_size(3); g.propagate(((0,2), t(5)..)).unwrap(); g.shrink_to_fit(); assert_eq!(g.size(), 3); }",
 "the last instant is only constrained by a lower bound from the first one","shrinking removes a constrained instant")
g("graph-reset-first","C21",[(S,"        (0..self.size).for_each(|i| unsafe {\n            // setting all constraint (i,i) to 0 (constraint from i to itseltf)\n            *self.lower_mut(i,i) = TimeValue::default();\n        });\n    }\n\n    /// Create","        (1..self.size).for_each(|i| unsafe {\n            // setting all constraint (i,i) to 0 (constraint from i to itseltf)\n            *self.lower_mut(i,i) = TimeValue::default();\n        });\n    }\n\n    /// Create")],
 "fn main() { let mut g = TimeGraph::with_size(3); g.reset(); assert_eq!(g.timespan(0,0), iv(0,0)); }",
 "a reset graph","the first instant is no more at duration 0 from itself")
g("graph-iter-both","C16",[(K,"                } else if unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }\n                    || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }","                } else if unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }\n                    || self.i == 0 && unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }")],
 "fn main() { let mut g = TimeGraph::with_size(3); g.propagate(((1,2), ..=t(5))).unwrap(); assert_eq!(g.iter().count(), 1); }",
 "a pair not involving the first instant bounded on one side only","the iteration over the graph misses a constraint")
g("graph-cmp-equal","C16",[(S,"                } else if ij == TimeValue::default() && ji == TimeValue::default() {","                } else if ij == TimeValue::default() || ji == TimeValue::default() {")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.propagate(((0,1), iv(0,5))).unwrap(); assert_eq!(g.instant_cmp(0,1), None); }",
 "two instants that may be equal","instants which may differ are said to be equal")
g("sched-later-only","C22",[(H,"                .for_each(|k| {\n                    let j = k.to() as usize;","                .filter(|k| k.is_low_bounded())\n                .for_each(|k| {\n                    let j = k.to() as usize;")],
 "fn main() { let mut g = TimeGraph::with_size(2); g.propagate(((0,1), ..=t(5))).unwrap(); let mut s = TimeScheduler::new(&g); s.retain(0, ..=at(7)).unwrap(); assert_eq!(s.scheduling(1).unwrap().upper_bound(), at(12)); }",
 "a constraint without lower bound from the restricted instant","a restriction is not propagated through constraints that only have an upper bound")
g("sched-contains","C22",[(H,"            if tw.contains(self.schedule.get_unchecked(i as usize)) {\n                Ok(TimePropagation::Unchanged)\n            } else if !tw","            if tw.lower_bound() <= self.schedule.get_unchecked(i as usize).lower_bound() && tw.upper_bound() >= self.schedule.get_unchecked(i as usize).upper_bound().just_before() {\n                Ok(TimePropagation::Unchanged)\n            } else if !tw")],
 "fn main() { let g = TimeGraph::with_size(1); let mut s = TimeScheduler::new(&g); s.retain(0, at(0)..=at(9)).unwrap(); s.retain(0, at(0)..=at(8)).unwrap(); assert_eq!(s.scheduling(0).unwrap().upper_bound(), at(8)); }",
 "a window that removes exactly the last tick of the set","a restriction by one tick is ignored")
g("transl-cross","C13",[(TR,"        let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);\n        debug_assert!(!tw.is_empty(), \"time interval translation overflows\");\n        tw\n    }\n}\n\nimpl Sub<Timestamp> for TimeSlot","        let tw = TimeInterval::new(self.lower - other.lower.max(other.upper),self.upper - other.lower.max(self.lower));\n        debug_assert!(!tw.is_empty(), \"time interval translation overflows\");\n        tw\n    }\n}\n\nimpl Sub<Timestamp> for TimeSlot")],
 "fn main() { let a = TimeSlot::new(at(5), at(9)); let b = TimeSlot::new(at(1), at(2)); assert_eq!(a - b, iv(3,8)); }",
 "the difference of two slots, the second of which starts first","the difference of two slots is too small")
g("transl-join","C14",[(TI,"|r,tw| r | (tw + *ts));","|r,tw| if r.is_empty() { (tw + *ts).into() } else { let tw = tw + *ts; let c: TimeSet<I::TimePoint> = r.iter().filter(|x| x.upper_bound().just_after() != tw.lower_bound()).collect(); c | tw });")],
 "use chronologic::iter::*; fn main() { let s: TimeSpans = vec![iv(0,2), iv(5,6)].into_iter().collect(); let r: TimeSpans = s.iter().translation(&iv(0,2)).collect(); assert_eq!(r, vec![iv(0,8)].into_iter().collect::<TimeSpans>()); }",
 "two intervals that become adjacent after the translation","an interval is lost by the translation")
