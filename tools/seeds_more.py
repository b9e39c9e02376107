from seedlib import seed
C="src/relns/contain.rs"; O="src/relns/overlap.rs"; T="src/wins/timeset.rs"; V="src/wins/timevalue.rs"; R="src/relns/ordering.rs"; SC="src/ops/scaling.rs"; W="src/wins/timeinterval.rs"
seed("contain-upper","C08",[(C,"            .find(|ts| ts.upper_bound() >= rhs.lower_bound())","            .find(|ts| ts.upper_bound() > rhs.lower_bound() || ts.is_singleton())")],
 "fn main() { assert!(set(&[(0,5),(8,9)]).contains(&t(5))); }",
 "the queried window begins at the very last point of an interval of the set","a set does not contain the last point of its intervals")
seed("overlap-skip","C08",[(O,"            .find(|ts| ts.upper_bound() >= rhs.lower_bound())\n            .map(|ts| ts.lower_bound() <= rhs.upper_bound())","            .find(|ts| ts.upper_bound().just_after() >= rhs.lower_bound())\n            .map(|ts| ts.lower_bound() <= rhs.upper_bound())")],
 "fn main() { assert!(!set(&[(0,5),(9,12)]).overlaps(&iv(6,7))); assert!(set(&[(0,5),(9,12)]).overlaps(&iv(5,7))); }",
 "the queried interval begins one tick after an interval of the set","adjacent windows are said to overlap")
seed("truncate-after-start","C09",[(T,"self.0.iter().rposition(|i| i.lower_bound() <= upper)","self.0.iter().rposition(|i| i.lower_bound() < upper)")],
 "use chronologic::*; fn main() { let mut s = set(&[(0,5),(8,9)]); s.truncate_after(t(8)); assert_eq!(s, set(&[(0,5),(8,8)])); }",
 "the cut is exactly the first point of an interval","truncating a set loses the cut point itself")
seed("truncate-before-flag","C09",[(T,"                let _ = self.0.drain(0..pos);\n                // SAFETY: the position is returned by position, at least one element remains\n                let _ = unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower);\n                true","                let _ = self.0.drain(0..pos);\n                // SAFETY: the position is returned by position, at least one element remains\n                unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower)")],
 "fn main() { let mut s = set(&[(0,5),(8,9)]); assert!(s.truncate_before(t(7))); }",
 "the cut falls in a gap of the set","truncation removes whole intervals and reports that nothing changed")
seed("add-overflow-neg","C10",[(V,"            Self::from_ticks(self.0.saturating_add(other.0))","            Self(self.0.saturating_add(other.0))")],
 "fn main() { let a = t(-i64::MAX + 1) + t(-5); assert_eq!(a, -TimeValue::INFINITE); assert!(!a.is_finite()); }",
 "a sum of two negative values below the range","the sum is a value below -oo")
seed("just-before-inf","C10",[(V,"        Self(if self.is_finite() { self.0 - 1 } else { self.0 })","        Self(if !self.is_past_infinite() { self.0 - 1 } else { self.0 })")],
 "fn main() { assert_eq!(TimeValue::INFINITE.just_before(), TimeValue::INFINITE); }",
 "the tick before +oo","the point before +oo is finite")
seed("weeks-wrap","C11",[(V,"TimeValue::from_secs(weeks.saturating_mul(3600*24*7))","TimeValue::from_days(weeks.wrapping_mul(7))")],
 "fn main() { assert_eq!(TimeValue::from_weeks(i64::MAX/7 + 2), TimeValue::INFINITE); }",
 "more than i64::MAX/7 weeks","a huge number of weeks wraps to a negative duration")
seed("fract-order","C11",[(V,"            Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)","            Self((sec<<SUBSEC_BITLEN) + ((frac << SUBSEC_BITLEN).div_euclid(unit)))")],
 "fn main() { assert_eq!(TimeValue::from_millis(-1), -TimeValue::from_millis(1)); }",
 "a negative number of milliseconds which is not a whole number of ticks","negative sub-second durations are rounded away from zero")
seed("eq-hull","C23",[(R,"        other.is_convex()\n            && self.lower","        (other.is_convex() || !other.is_bounded())\n            && self.lower")],
 "fn main() { let s: S = vec![I::before(t(0)), I::after(t(5))].into_iter().collect(); assert!(I::all() != s); }",
 "an interval compared with an unbounded set that has a gap","an interval equals a set with a gap")
seed("set-bounded","C25",[(T,"            .map(TimeInterval::upper_bound)\n            .unwrap_or(-Self::TimePoint::INFINITE)","            .map(TimeInterval::upper_bound)\n            .unwrap_or(Self::TimePoint::INFINITE)")],
 "fn main() { assert_eq!(S::empty().upper_bound(), -TimeValue::INFINITE); }",
 "the upper bound of the empty set","the empty set has the bounds of a non-empty one")
seed("scale-join-adjacent","C15",[(SC,"        if previous.upper_bound() >= current.lower_bound().just_before() {","        if previous.upper_bound() >= current.lower_bound() {")],
 "fn main() { let r = set(&[(0,5),(8,9)]) / 3i64; assert_eq!(r.iter().count(), 1); }",
 "two intervals whose quotients are adjacent","dividing a set leaves adjacent intervals")
seed("scale-reverse","C15",[(SC,"                    self.0.iter_mut().for_each(|tw| *tw *= n);\n                    #[allow(unused_comparisons)] if n < 0 { self.0.reverse() }\n                    // NOTE","                    self.0.iter_mut().for_each(|tw| *tw *= n);\n                    #[allow(unused_comparisons)] if n < 0 && self.0.len() > 2 { self.0.reverse() }\n                    // NOTE")],
 "fn main() { let mut r = set(&[(0,5),(8,9)]); r *= -2i64; assert_eq!(r.lower_bound(), t(-18)); }",
 "a set of exactly two intervals times a negative factor in place","the scaled set is not sorted")
seed("truncate-units","C12",[("src/wins/timevalue.rs","        let rem = self.0 % period.0;\n        if rem > 0 {","        let rem = self.0 % period.0;\n        if rem > 1 {")],
 "fn main() { assert_eq!(t(11).ceil(t(5)), t(15)); }",
 "a value one tick above a multiple of the period","ceil gives a value below its argument")
