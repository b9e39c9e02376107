from seedlib import seed
U="src/iter/union.rs"; X="src/iter/intersect.rs"
seed("union-waitj-end","C04",[(U,"                        None => {\n                            /* end of the iterator over j...*/\n                            self.state = UnionState::OnlyI;","                        None => {\n                            /* end of the iterator over j...*/\n                            self.state = UnionState::End;")],
 "fn main() { let r = set(&[(0,5),(20,25),(40,45)]) | set(&[(3,4)]); assert_eq!(r, set(&[(0,5),(20,25),(40,45)])); }",
 "the right operand ends while an interval of the left one is pending and more of the left one follow","the union iterator drops the remaining intervals of its left operand")
seed("union-merge-upper","C04",[(U,"                            self.state = UnionState::WaitI;\n                            if self.tmp.lower > j.lower { self.tmp.lower = j.lower; }\n                            self.tmp.upper = j.upper;","                            if self.tmp.lower > j.lower { self.tmp.lower = j.lower; }\n                            self.tmp.upper = j.upper;")],
 "fn main() { let v: Vec<_> = set(&[(0,10),(15,30)]).into_iter().union(set(&[(1,2),(5,20),(40,50)])).collect(); assert_eq!(v, vec![iv(0,30),iv(40,50)]); }",
 "an interval of the second operand reaches over the pending one and the first operand has another interval before the next of the second","the union iterator waits for the wrong operand, so intervals come out of order or unmerged")
seed("inter-tie","C05",[(X,"""                        Some(mut j) if j.upper <= self.tmp.upper => {
                            // tmp:                [--------]    or    [----------------------]
                            // j:     [------------------]       or           [-----------]
                            if self.tmp.lower > j.lower { j.lower = self.tmp.lower; }""","""                        Some(mut j) if j.upper <= self.tmp.upper => {
                            // tmp:                [--------]    or    [----------------------]
                            // j:     [------------------]       or           [-----------]
                            if self.tmp.lower > j.lower.just_after() { j.lower = self.tmp.lower; }""")],
 "fn main() { let r = set(&[(5,9)]) & set(&[(0,1),(4,6)]); assert_eq!(r, set(&[(5,6)])); }",
 "the interval of the right operand begins exactly one tick before the pending one","the intersection keeps one tick that only the right operand holds")
seed("compl-window-one-tick","C06",[("src/iter/compl.rs","            if self.lower < next.lower_bound() {","            if self.lower.just_after() < next.lower_bound() || next.upper_bound().is_future_infinite() {")],
 "fn main() { let r: S = set(&[(0,5),(7,9),(20,30)]).into_iter().complementary().collect(); assert_eq!(r, !set(&[(0,5),(7,9),(20,30)])); }",
 "a gap of exactly one tick between two intervals","the complementary iterator skips a gap of one tick and what follows")
seed("compl-set-last","C06",[("src/ops/compl.rs","            if !previous.is_future_infinite() {","            if !previous.just_after().is_future_infinite() {")],
 "fn main() { let m = i64::MAX; let s = set(&[(0, m-2)]); let r = !s.clone(); assert_eq!(r.upper_bound(), TimeValue::INFINITE); assert!(!r.is_empty() && r.iter().count() == 2); }",
 "a set that ends two ticks before +oo","the complement of the set misses the last finite tick and +oo")
seed("bitor-interval-gap","C03",[("src/ops/union.rs","        } else if self.upper < tw.lower_bound().just_before() {\n            TimeSet(vec![*self, tw])","        } else if self.upper.just_after() < tw.lower_bound().just_before() {\n            TimeSet(vec![*self, tw])")],
 "fn main() { let r = iv(0,5) | iv(7,9); assert!(!r.contains(&t(6))); }",
 "a gap of exactly one tick between the left and the right interval","the union of the intervals holds the tick between them")
seed("truncate-drain","C07",[("src/wins/timeset.rs","                if i.lower_bound() > r.upper_bound().just_after() {","                if i.lower_bound() >= r.upper_bound().just_after() {")],
 "fn main() { let s: S = vec![iv(0,5), iv(6,9)].into_iter().collect(); assert_eq!(s.iter().count(), 1); }",
 "two consecutive parts which are adjacent","collecting adjacent intervals leaves two intervals that should be merged")
seed("neg-order","C07",[("src/wins/timeset.rs","        Self(self.0.iter().rev().map(|&t| -t).collect())","        let mut v: Vec<_> = self.0.iter().rev().map(|&t| -t).collect();\n        if v.len() > 2 { let n = v.len(); v[..n-1].reverse(); }\n        Self(v)")],
 "fn main() { let s = set(&[(0,5),(7,9),(20,30)]); assert_eq!((-s).lower_bound(), t(-30)); }",
 "a set of three intervals or more","the negated set is not sorted")
seed("truncate-interval-eq","C01",[("src/wins/timeinterval.rs","            if self.upper < lower || lower.is_future_infinite() {\n","            if self.upper < lower.just_before() || lower.is_future_infinite() {\n")],
 "fn main() { let mut i = iv(0,5); i.truncate_before(t(6)); assert!(i.is_empty()); assert_eq!(i, I::empty()); }",
 "the cut is exactly one tick after the interval","the truncated interval is inverted instead of empty")
seed("and-assign-set","C05",[("src/ops/intersect.rs","        let _ = self.truncate_after(tw.upper_bound());\n        let _ = self.truncate_before(tw.lower_bound());","        if self.truncate_after(tw.upper_bound()) || self.lower_bound() < tw.lower_bound().just_before() {\n            let _ = self.truncate_before(tw.lower_bound());\n        }")],
 "fn main() { let mut s = set(&[(0,5),(7,9)]); s &= iv(1,20); assert_eq!(s, set(&[(1,5),(7,9)])); }",
 "the interval ends after the set and begins exactly one tick after it","the in-place intersection keeps one tick outside the interval")
