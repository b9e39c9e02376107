from seedlib import seed
I="src/wins/timeinterval.rs"; A="src/ops/intersect.rs"; V="src/wins/timevalue.rs"; P="src/graph/propagation.rs"; O="src/relns/ordering.rs"
GPRE = """use chronologic::*; use chronologic::graph::*;
fn t(x: i64) -> TimeValue { TimeValue::from_ticks(x) }
fn iv(a: i64, b: i64) -> TimeSpan { TimeSpan::new(t(a), t(b)) }
"""
INF = "TimeValue::INFINITE"
seed("pair-at-infinity","C01",[(I,"        Self::new(lower, upper)\n    }\n}","        if lower <= upper { Self { lower, upper } } else { Self::empty() }\n    }\n}")],
 f"fn main() {{ assert!(I::from(({INF}, {INF})) == I::empty()); assert!(I::from((-{INF}, -{INF})) == I::empty()); assert!(I::from((t(3), t(3))) == I::new(t(3), t(3))); }}",
 "a pair of equal infinite bounds","an interval that holds no point is not the empty one")
seed("after-the-past","C01",[(I,"        if t.is_future_infinite() {\n            Self::empty()\n        } else {\n            Self { lower: t, upper: T::INFINITE }","        if !t.is_finite() {\n            Self::empty()\n        } else {\n            Self { lower: t, upper: T::INFINITE }")],
 f"fn main() {{ assert!(I::after(-{INF}).is_all()); assert!(I::after({INF}).is_empty()); }}",
 "the interval after the past infinite","the interval is empty instead of everything")
seed("inter-touch","C02",[(A,"        let i = tw.into();\n","        let i = tw.into();\n        if self.upper <= i.lower { return TimeInterval::empty() }\n")],
 "fn main() { assert!((I::new(t(0), t(5)) & I::new(t(5), t(9))) == I::new(t(5), t(5))); assert!((I::new(t(5), t(9)) & I::new(t(0), t(5))) == I::new(t(5), t(5))); }",
 "a first interval that ends where the second begins","the common point is lost")
seed("floor-exact","C12",[(V,"        if rem < 0 {","        if rem < 0 || rem == 0 && self.0 < -period.0 {")],
 "fn main() { assert!(t(-10).floor(t(5)) == t(-10)); assert!(t(-5).floor(t(5)) == t(-5)); assert!(t(-7).floor(t(5)) == t(-10)); }",
 "a negative multiple of the period, beyond one period","floor is one period too low")
seed("ceil-past","C12",[(V,"        if !self.is_finite() { return self; }\n        let rem = self.0 % period.0;\n        if rem > 0 {","        if self.is_future_infinite() { return self; }\n        let rem = self.0 % period.0;\n        if rem > 0 {")],
 f"fn main() {{ assert!((-{INF}).ceil(t(5)) == -{INF}); assert!({INF}.ceil(t(5)) == {INF}); }}",
 "rounding the past infinite up","a finite value comes out")
seed("propagate-later","C17",[(P,"            for i in 0..self.size() {\n                let val: TimeValue = self.lower(i,io)  + io_jo;","            for i in 0..=io.max(jo) {\n                let val: TimeValue = self.lower(i,io)  + io_jo;")],
 "fn main() { let mut g = TimeGraph::with_size(5); g.propagate(((4,0), iv(3,4))).unwrap(); g.propagate(((0,1), TimeSpan::new(t(5), TimeValue::INFINITE))).unwrap(); assert!(g.timespan(4,1).lower_bound() == t(8)); }",
 "a constraint between early instants reached from a later one","the later instant keeps loose bounds", pre=GPRE)
seed("propagate-both","C17",[(P,"                                *self.lower_mut(k.to(), k.from()) = -k.upper_bound();\n                                self.propagate_lower_bound(k.to(), k.from());\n                            }\n","                                *self.lower_mut(k.to(), k.from()) = -k.upper_bound();\n                                if k.upper_bound() != k.lower_bound() { self.propagate_lower_bound(k.to(), k.from()); }\n                            }\n")],
 "fn main() { let mut g = TimeGraph::with_size(4); g.propagate(((0,1), iv(3,4))).unwrap(); g.propagate(((1,2), iv(5,5))).unwrap(); assert!(g.timespan(0,2) == iv(8,9)); }",
 "an exact distance next to another constraint","the upper bounds are not passed on", pre=GPRE)
seed("eq-prefix","C23",[(O,"        self.iter().eq(other.iter())","        self.lower_bound() == other.lower_bound() && self.iter().zip(other.iter()).all(|(a, b)| a == b)")],
 "fn main() { assert!(set(&[(0,1),(5,6)]) != set(&[(0,1),(5,6),(9,9)])); assert!(set(&[(0,1)]) == set(&[(0,1)])); assert!(S::empty() == S::empty()); }",
 "a set that is the beginning of the other","the sets compare equal")
seed("order-empty","C23",[(O,"                !self.is_empty() && !other.is_empty()\n                    && self.lower_bound() > other.upper_bound()","                !self.is_empty() && self.lower_bound() > other.upper_bound()")],
 "fn main() { assert!(!(set(&[(0,1)]) > S::empty())); assert!(!(I::new(t(1), t(2)) > I::empty())); assert!(I::new(t(1), t(2)).partial_cmp(&I::empty()).is_none()); }",
 "comparing with the empty window","every window is after the empty one")
H="src/graph/scheduler.rs"
seed("millis-rounded","C32",[(V,"        self.subsec_nanos() / 1_000_000\n","        (self.subsec_nanos() + 500_000) / 1_000_000\n")],
 "fn main() { for k in 0..2000 { let x = t((1 << 30) - 1 - k * 1000); assert!(x.subsec_millis() < 1000); assert_eq!(x.subsec_millis(), x.subsec_nanos() / 1_000_000); } }",
 "a fraction within half a millisecond of the next second","the milliseconds reach 1000")
seed("nanos-negative","C32",[(V,"        ((((self.0 & SUBSEC_BITMASK)  as u64","        ((((self.0.abs() & SUBSEC_BITMASK)  as u64")],
 "fn main() { assert_eq!(t(-(1 << 28)).as_secs(), -1); assert_eq!(t(-(1 << 28)).subsec_nanos(), 750_000_000); assert_eq!(t(1 << 28).subsec_nanos(), 250_000_000); }",
 "a negative value that is not a whole number of seconds","seconds and fraction do not give the value back")
seed("duration-empty","C32",[(I,"        if self.upper <= self.lower { TimeValue::default() } else { self.upper - self.lower }","        if self.upper == self.lower { TimeValue::default() } else { self.upper - self.lower }")],
 "fn main() { assert_eq!(TimeSlot::empty().duration().as_ticks(), 0); assert_eq!(TimeSlot::all().duration(), TimeValue::INFINITE); }",
 "the empty slot","its duration is the past infinite")
seed("ending-reset","C32",[(H,"        self.schedule.iter().map(|i| i.lower_bound()).max().unwrap()","        self.schedule.iter().map(|i| i.lower_bound()).reduce(|a, b| if b.is_finite() { a.max(b) } else { b }).unwrap()")],
 "use chronologic::graph::*; fn main() { let g = TimeGraph::with_size(3); let mut s = TimeScheduler::new(&g); s.retain(1, Timestamp::from_origin(t(5))..).unwrap(); assert_eq!(s.earliest_ending(), Timestamp::from_origin(t(5))); }",
 "an instant without lower bound after one that has a lower bound","the lower bound of the earlier instant is forgotten")
FM="src/wins/format.rs"
seed("print-empty-set","C33",[(FM,"""        let mut iter = self.0.iter();
        if let Some(first) = iter.next() {
            write!(formatter, "{}", first)?;
            iter.try_for_each(|tw| write!(formatter, "U{}", tw))
        } else {
            write!(formatter, "{{}}") /* empty set */
        }
""","""        let (first, others) = (self.0[0], &self.0[1..]);
        write!(formatter, "{}", first)?;
        others.iter().try_for_each(|tw| write!(formatter, "U{}", tw))
""")],
 "fn main() { let _ = format!(\"{}\", set(&[(0,1),(5,6)])); let _ = format!(\"{}\", S::empty()); }",
 "displaying the empty set","it panics")
seed("print-zero","C33",[(FM,"    assert! ( t >= 0 );","    assert! ( t > 0, \"the sign is printed apart\" );")],
 "fn main() { let _ = format!(\"{}\", t(5)); let _ = format!(\"{}\", t(0)); }",
 "displaying the zero duration","it panics")
seed("print-no-instant","C33",[(H,'            .unwrap_or("empty time scheduler (no instant)".to_string())','            .expect("empty time scheduler (no instant)")')],
 "use chronologic::graph::*; fn main() { let g = TimeGraph::with_size(0); let s = TimeScheduler::new(&g); let _ = s.format_timeset(\"%F\"); }",
 "formatting the schedule of a graph without instants","it panics")
seed("print-before-epoch","C33",[("src/wins/timestamp.rs","value.0.as_secs(), value.0.subsec_nanos() as u32).unwrap()","value.0.as_ticks() / (1 << 30), (((value.0.as_ticks() % (1 << 30)) * 1_000_000_000) >> 30) as u32).unwrap()")],
 "fn main() { let s = Timestamp::from_origin(t(1 << 28)); let _ = s.format_timepoint(\"%T\"); let s = Timestamp::from_origin(t(-(1 << 28))); let _ = s.format_timepoint(\"%T\"); }",
 "formatting a moment before 1970 that is not a whole second","it panics")
TS="src/wins/timestamp.rs"
seed("date-millis","C27",[(TS,"""    fn from(t: NaiveDateTime) -> Self {
        Self(TimeValue::from_nanos(t.timestamp_nanos_opt().unwrap()))""","""    fn from(t: NaiveDateTime) -> Self {
        let t = t.and_utc();
        Self(TimeValue::from_secs(t.timestamp()) + TimeValue::from_micros(t.timestamp_subsec_micros() as i64))""")],
 "fn main() { let s = Timestamp::from_origin(t((1 << 28) + 7)); let d = s.to_datetime().naive_utc(); assert!((Timestamp::from(d).since_origin() - s.since_origin()).as_ticks().abs() <= 2); let s = Timestamp::from_origin(t(1234567891)); let d = s.to_datetime().naive_utc(); assert!((Timestamp::from(d).since_origin() - s.since_origin()).as_ticks().abs() <= 2); }",
 "a date with nanoseconds","the nanoseconds below one microsecond are lost")
seed("date-before-epoch","C27",[(TS,"value.0.as_secs(), value.0.subsec_nanos() as u32).unwrap()","value.0.as_ticks() / (1 << 30), value.0.subsec_nanos() as u32).unwrap()")],
 "fn main() { let s = Timestamp::from_origin(t((1 << 30) + 12345)); let d = s.to_datetime(); assert_eq!(d.timestamp(), 1); let s = Timestamp::from_origin(t(-(1 << 28))); let d = s.to_datetime(); assert_eq!(d.timestamp(), -1); }",
 "a moment before 1970 that is not a whole second","the date is one second late")
