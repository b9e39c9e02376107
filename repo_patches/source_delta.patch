From 2575e5d7a4df4f4e0fee4847f5a5b3d926e4740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 01/31] fix: an interval built from a range with infinite ends
 is canonical

---
 src/ops/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..14d738f 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -83,7 +83,7 @@ macro_rules! timerange {
         impl<T:TimePoint> From<$range<T>> for TimeInterval<T> {
             #[inline]
             fn from(range: $range<T>) -> Self {
-                TimeInterval { lower: range.lower_bound(), upper: range.upper_bound() }
+                TimeInterval::new(range.lower_bound(), range.upper_bound())
             }
         }
     }
-- 
2.43.0


From 235351299aaec5d9ef5e1eeedb7d00ffa817690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 02/31] fix: truncating an interval at infinity gives the empty
 interval

---
 src/wins/timeinterval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..e7824e0 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,7 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
+            if self.upper < lower || lower.is_future_infinite() {
                 *self = Self::empty();
             } else {
                 self.lower = lower;
@@ -142,7 +142,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
+            if upper < self.lower || upper.is_past_infinite() {
                 *self = Self::empty();
             } else {
                 self.upper = upper;
-- 
2.43.0


From 012d366019e1e4dbee579183c5d2c84fa203600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 03/31] fix: centered and enlarged intervals are canonical

---
 src/wins/timeinterval.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index e7824e0..78614b1 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -160,10 +160,7 @@ impl<T:TimePoint> TimeInterval<T>
     pub fn centered(origin: T, delta: TimeValue) -> Option<Self>
     {
         // if delta is negative, we could be surprised...
-        delta.is_positive().then_some(Self {
-            lower: origin - delta,
-            upper: origin + delta,
-        })
+        delta.is_positive().then(|| Self::new(origin - delta, origin + delta))
     }
 
     #[inline]
@@ -172,7 +169,7 @@ impl<T:TimePoint> TimeInterval<T>
         let lower = self.lower - delta;
         let upper = self.upper + delta;
         // if delta is negative, we could be surprised...
-        (lower <= upper).then_some(Self { lower, upper } )
+        (lower <= upper).then(|| Self::new(lower, upper))
     }
 
 }
-- 
2.43.0


From 12bf956b95f6e69ad4362d880878fcc53964ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 04/31] fix: the intersection of disjoint intervals is the
 empty interval

---
 src/ops/intersect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..58c5e26 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,8 +26,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
-        if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
-        if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        *self = (&*self).bitand(tw);
     }
 }
 
@@ -48,10 +47,7 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From d6e6d3122b4ed0b7857e76955474afb6b9ec05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 05/31] fix: a time set built from an infinite point or range
 holds no empty interval

---
 src/wins/timeset.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..67ad03a 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
@@ -160,11 +160,8 @@ impl<T,TW> From<TW> for TimeSet<T>
 {
     #[inline] fn from(tw: TW) -> Self
     {
-        if tw.is_empty() {
-            TimeSet::empty()
-        } else {
-            Self(vec![TimeInterval { lower: tw.lower_bound(), upper: tw.upper_bound()}])
-        }
+        let tw: TimeInterval<T> = tw.into();
+        if tw.is_empty() { Self::empty() } else { Self(vec![tw]) }
     }
 }
 
-- 
2.43.0


From eded0c10a60ec9f2c3455aa51ba0304d1780a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 06/31] fix: the union of an interval and an infinite point or
 range holds no empty interval

---
 src/ops/union.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/union.rs b/src/ops/union.rs
index e03fe06..197b8dd 100644
--- a/src/ops/union.rs
+++ b/src/ops/union.rs
@@ -36,6 +36,7 @@ impl<T:TimePoint,TW> BitOr<TW> for &TimeInterval<T>
 
     fn bitor(self, tw: TW) -> Self::Output
     {
+        let tw: TimeInterval<T> = tw.into();
         if self.is_empty() {
             TimeSet::from(tw)
 
@@ -43,10 +44,10 @@ impl<T:TimePoint,TW> BitOr<TW> for &TimeInterval<T>
             (*self).into()
 
         } else if tw.upper_bound() < self.lower.just_before() {
-            TimeSet(vec![tw.into(), *self])
+            TimeSet(vec![tw, *self])
 
         } else if self.upper < tw.lower_bound().just_before() {
-            TimeSet(vec![*self, tw.into()])
+            TimeSet(vec![*self, tw])
 
         } else {
             TimeSet(vec![
-- 
2.43.0


From 209264a0f49d1f5bb48af7039828ee4c0f9d07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 07/31] fix: the union iterator keeps what remains of its first
 operand when the second one ends

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 739b0264d0d8cbf3aa9b427eec625f671dc121ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 08/31] fix: the intersection iterator treats adjacent
 intervals as disjoint

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From 13b78f368259e8338a1d6efd8b38009b488c44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 09/31] fix: collecting intervals into a time set drops the
 empty ones

---
 src/wins/timeset.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 67ad03a..aaa0238 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -124,7 +124,8 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        // an empty interval adds nothing and breaks the canonical representation
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
-- 
2.43.0


From 2543f241564f72111495ccef8f0afa82f8c5fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:46 +0000
Subject: [PATCH 10/31] fix: truncating a time set at infinity leaves no empty
 interval in it

---
 src/wins/timeset.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index aaa0238..6e6cbe5 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -172,6 +172,12 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_before(&mut self, lower: T) -> bool
     {
+        if lower.is_future_infinite() {
+            // nothing remains, even if the last interval is not up-bounded
+            let changed = !self.is_empty();
+            self.0.clear();
+            return changed;
+        }
         match self.0.iter().position(|i| i.upper_bound() >= lower)
         {
             Some(0) => {
@@ -192,6 +198,12 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_after(&mut self, upper: T) -> bool
     {
+        if upper.is_past_infinite() {
+            // nothing remains, even if the first interval is not low-bounded
+            let changed = !self.is_empty();
+            self.0.clear();
+            return changed;
+        }
         match self.0.iter().rposition(|i| i.lower_bound() <= upper)
         {
             Some(pos) if pos+1 == self.0.len() => {
-- 
2.43.0


From 33182e9bdcc54b21bdc12fe8bdc7232c6978836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:18 +0000
Subject: [PATCH 11/31] fix: the empty window is neither bounded nor the full
 window

---
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 78614b1..22c382d 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -181,8 +181,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { self.lower.is_finite() } // false if empty
+    #[inline] fn is_up_bounded(&self) -> bool { self.upper.is_finite() } // false if empty
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From 6d443b02fc70c0ff7a5b5217ff392ccf81066eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 12/31] fix: the empty window is neither before nor after
 another one

---
 src/relns/ordering.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/relns/ordering.rs b/src/relns/ordering.rs
index 41c523d..62b78e8 100644
--- a/src/relns/ordering.rs
+++ b/src/relns/ordering.rs
@@ -46,7 +46,8 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn lt(&self, other: &TW) -> bool {
-                self.upper_bound() < other.lower_bound()
+                !self.is_empty() && !other.is_empty() // nothing is before or after the empty window
+                    && self.upper_bound() < other.lower_bound()
             }
 
             #[inline]
@@ -56,7 +57,8 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn gt(&self, other: &TW) -> bool {
-                self.lower_bound() > other.upper_bound()
+                !self.is_empty() && !other.is_empty()
+                    && self.lower_bound() > other.upper_bound()
             }
 
             #[inline]
-- 
2.43.0


From 4e313ba8275566e368a3acc412af04ffa9fbc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 13/31] fix: rounding to a period is right for unaligned
 negative values, infinities and the ends of the range

---
 src/wins/convert.rs   |  8 +++++---
 src/wins/timevalue.rs | 28 ++++++++++++++--------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..de6a7f6 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
@@ -35,7 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
 
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..0ef746e 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -192,25 +192,25 @@ impl TimeValue {
     #[inline]
     pub fn floor(self, period:TimeValue) -> Self
     {
-        Self(
-            if self.0 >= 0 {
-                (self.0/period.0)*period.0
-            } else {
-                ((self.0+1)/period.0-1)*period.0
-            }
-        )
+        if !self.is_finite() { return self; }
+        let rem = self.0 % period.0;
+        if rem < 0 {
+            Self::from_ticks((self.0 - rem).saturating_sub(period.0))
+        } else {
+            Self(self.0 - rem)
+        }
     }
 
     #[inline]
     pub fn ceil(self, period:TimeValue) -> Self
     {
-        Self(
-            if self.0 > 0 {
-                ((self.0-1)/period.0+1)*period.0
-            } else {
-                ((self.0-1)/period.0)*period.0
-            }
-        )
+        if !self.is_finite() { return self; }
+        let rem = self.0 % period.0;
+        if rem > 0 {
+            Self::from_ticks((self.0 - rem).saturating_add(period.0))
+        } else {
+            Self(self.0 - rem)
+        }
     }
 }
 
-- 
2.43.0


From e34b96bf91d8d5db09cbb6805d3196fd535008b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:46 +0000
Subject: [PATCH 14/31] fix: durations below the range are -oo instead of a
 wrapped value

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 0ef746e..8b5a904 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From 6fc7258434bf6f998ad364dfa2ec08b455f2a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:14 +0000
Subject: [PATCH 15/31] fix: scaling an infinite or zero duration by any
 integer keeps its sign and its infinity

---
 src/ops/scaling.rs | 63 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..81ce4a1 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -3,19 +3,56 @@ use std::ops::{Div, DivAssign, Mul, MulAssign};
 
 //-------------- TIMEVALUE SCALING -----------------------------
 
+// product by a factor which fits in 64 bits (an infinite duration remains infinite)
+#[inline]
+fn mul_ticks(t: TimeValue, n: i64) -> TimeValue {
+    TimeValue::from_ticks(t.0.saturating_mul(n))
+}
+
+// quotient by a factor which fits in 64 bits (an infinite duration remains infinite)
+#[inline]
+fn div_ticks(t: TimeValue, n: i64) -> TimeValue {
+    assert_ne!(n, 0, "div. by zero");
+    if t.is_finite() {
+        TimeValue::from_ticks(t.0.saturating_div(n))
+    } else if n < 0 {
+        -t
+    } else {
+        t
+    }
+}
+
+// product by a factor whose absolute value is greater than `i64::MAX`
+#[inline]
+fn mul_huge(t: TimeValue, negative: bool) -> TimeValue {
+    mul_ticks(t, if negative { -i64::MAX } else { i64::MAX })
+}
+
+// quotient by a factor whose absolute value is greater than `i64::MAX`
+#[inline]
+fn div_huge(t: TimeValue, negative: bool) -> TimeValue {
+    if t.is_finite() {
+        TimeValue::default() // zero
+    } else if negative {
+        -t
+    } else {
+        t
+    }
+}
+
 // GROUP 1: scale factor is always less than i64::MAX (abs value)
 macro_rules! timevalscalingsmall {
     ($scale: ty) => {
         impl Mul<$scale> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_mul(n as i64))
+                mul_ticks(self, n as i64)
             }
         }
         impl Div<$scale> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                div_ticks(self, n as i64)
             }
         }
     };
@@ -36,21 +73,23 @@ macro_rules! timevalscalingbig {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                    mul_huge(self, false)
                 } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
+                    mul_huge(self, true)
                 } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
+                    mul_ticks(self, n as i64)
                 }
             }
         }
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
+                if n > INFINITE_TIME_VALUE as $time {
+                    div_huge(self, false)
+                } else if n < -INFINITE_TIME_VALUE as $time {
+                    div_huge(self, true)
                 } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                    div_ticks(self, n as i64)
                 }
             }
         }
@@ -68,9 +107,9 @@ macro_rules! timevalscalingubig {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                    mul_huge(self, false)
                 } else {
-                    TimeValue::from_ticks(self.0.saturating_mul(n as i64))
+                    mul_ticks(self, n as i64)
                 }
             }
         }
@@ -78,9 +117,9 @@ macro_rules! timevalscalingubig {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
+                    div_huge(self, false)
                 } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                    div_ticks(self, n as i64)
                 }
             }
         }
-- 
2.43.0


From 995831f678add63e3e58bc3893ce4de20080333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:29 +0000
Subject: [PATCH 16/31] fix: a non-empty set of durations scaled by zero is the
 set of the zero duration

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 81ce4a1..5d7d73a 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -301,7 +301,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -328,7 +328,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 057f901124039a66ddc751c0c83ec5b68a505984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:22 +0000
Subject: [PATCH 17/31] fix: translating an empty interval gives the empty
 interval and translating a singleton in place does not panic

---
 src/ops/transl.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..582fad3 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return self; }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return self; }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,9 +33,11 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -42,9 +46,11 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -67,6 +73,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return Self::empty(); }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +85,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return Self::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,9 +97,12 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() { return; }
+        if other.is_empty() { *self = Self::empty(); return; }
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -100,9 +111,12 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() { return; }
+        if other.is_empty() { *self = Self::empty(); return; }
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        *self = TimeInterval::new(self.lower, self.upper);
+        debug_assert!(!self.is_empty(), "time interval translation overflows");
     }
 }
 
@@ -110,6 +124,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty(); }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +135,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeSlot::empty(); }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +158,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeSpan::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +169,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeSpan::empty(); }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +180,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeSpan::empty(); }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From c35a0f0d881dd8792eb71d2c6767e8b8045ba0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:02 +0000
Subject: [PATCH 18/31] fix: the cells of a graph of 65536 instants or more are
 addressed without wrapping

---
 src/graph/storage.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 0ed5877..11f2570 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -36,7 +36,7 @@ impl TimeGraph {
     /// buth the impact of their propagation remains.
     pub fn resize(&mut self, n: Instant)
     {
-        self.data.resize((n * n) as usize, -TimeValue::INFINITE);
+        self.data.resize(n as usize * n as usize, -TimeValue::INFINITE);
         (self.size..n).for_each(|i| unsafe {
             // setting all constraint (i,i) to 0 (constraint from i to itseltf)
             *self.lower_mut(i,i) = TimeValue::default();
@@ -54,10 +54,11 @@ impl TimeGraph {
     pub fn shrink_to_fit(&mut self)
     {
        self.size = (0..self.size).rev()
-            .find(|&i|
+            .find(|&i| {
+                let i = i as usize;
                 (i*i..=i*i+2*i).filter(|&x| x != i*i+i)
                     .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
-            ).map(|i| i+1)
+            }).map(|i| i+1)
             .unwrap_or(0);
         self.data.shrink_to_fit()
     }
@@ -68,11 +69,12 @@ impl TimeGraph {
     ///
     /// If the current capacity is less than the lower limit, this is a no-op.
     #[inline]
-    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n * n) as usize) }
+    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to(n as usize * n as usize) }
 
     #[inline]
     pub(super)
     unsafe fn lower(&self, i:Instant, j:Instant) -> TimeValue {
+        let (i,j) = (i as usize, j as usize);
         let ij = if i >= j { i*i + j } else { j*(j+2) - i };
         *self.data.get_unchecked(ij as usize)
     }
@@ -80,6 +82,7 @@ impl TimeGraph {
     #[inline]
     pub(super)
     unsafe fn lower_mut(&mut self, i:Instant, j:Instant) -> &mut TimeValue {
+        let (i,j) = (i as usize, j as usize);
         let ij = if i >= j { i*i + j } else { j*(j+2) - i };
         self.data.get_unchecked_mut(ij as usize)
     }
@@ -87,9 +90,11 @@ impl TimeGraph {
     #[inline]
     pub fn timespan(&self, i:Instant, j:Instant) -> TimeSpan
     {
+        // the number of cells does not always fit in an `Instant`
+        let (size,i,j) = (self.size() as usize, i as usize, j as usize);
         #[allow(clippy::collapsible_else_if)]
         if i >= j {
-            if i >= self.size() {
+            if i >= size {
                 TimeInterval::all()
             } else {
                 TimeInterval {
@@ -98,7 +103,7 @@ impl TimeGraph {
                 }
             }
         } else {
-            if j >= self.size() {
+            if j >= size {
                 TimeInterval::all()
             } else {
                 TimeInterval {
-- 
2.43.0


From 1c134c10db6ddaabdc6c61c5a2864806d1d0fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 19/31] fix: a constraint on new instants is propagated and
 checked like any other

---
 src/graph/propagation.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..00250e4 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -50,16 +50,17 @@ impl TimeGraph
             Err(TimeInconsistencyError::Recovered)
         } else {
             let max = k.from().max(k.to());
-            if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
-                self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+            if self.size() <= max && k.from() == k.to() {
+                // un instant est toujours à distance 0 de lui-même
+                if k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative() {
+                    Err(TimeInconsistencyError::Recovered)
+                } else {
+                    self.resize(max + 1);
+                    Ok(TimePropagation::Unchanged)
                 }
-                Ok(TimePropagation::Propagated)
             } else {
+                // si i ou j n'est pas dans le graphe, il n'est pas encore contraint
+                if self.size() <= max { self.resize(max + 1); }
                 unsafe {
                     // SAFETY: we check the size of the graph just before entering here
                     if k.lower_bound() <= self.lower(k.from(), k.to()) {
-- 
2.43.0


From 0f142869508bedc3e1beb90feb87196d85ace342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:27 +0000
Subject: [PATCH 20/31] fix: an inconsistent graph is emptied with its
 constraints

---
 src/graph/propagation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 00250e4..c08ea0e 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -166,7 +166,7 @@ impl TimeGraph
                     if val > *x { *x = val; }
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
-                    self.size = 0;
+                    self.resize(0);
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From dffe7123af37b7f166b3ff9972ae75e2301407a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:47 +0000
Subject: [PATCH 21/31] fix: extending a graph with an empty constraint is an
 inconsistency

---
 src/graph/propagation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index c08ea0e..d443db0 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -195,7 +195,9 @@ impl TimeGraph
                 }
             }
             _ => {
+                let mut consistent = true;
                 iter.for_each(|k| {
+                        if k.is_empty() { consistent = false; return }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -209,6 +211,10 @@ impl TimeGraph
                             *upper = -k.upper_bound();
                         }
                     });
+                if !consistent {
+                    self.resize(0);
+                    return Err(TimeInconsistencyError::Fatal)
+                }
                 self.global_propagation()
             }
         }
-- 
2.43.0


From 527a4f19b8af9c0ce8c4d658d545dbb9bce1bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 22/31] fix: an instant which cannot be counted is refused
 instead of written out of the graph

---
 src/graph/propagation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index d443db0..0c68f86 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -50,6 +50,7 @@ impl TimeGraph
             Err(TimeInconsistencyError::Recovered)
         } else {
             let max = k.from().max(k.to());
+            assert!(max < Instant::MAX, "index out of bounds");
             if self.size() <= max && k.from() == k.to() {
                 // un instant est toujours à distance 0 de lui-même
                 if k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative() {
@@ -199,6 +200,7 @@ impl TimeGraph
                 iter.for_each(|k| {
                         if k.is_empty() { consistent = false; return }
                         let max = k.from().max(k.to());
+                        assert!(max < Instant::MAX, "index out of bounds");
                         if max >= self.size() { self.resize(max+1) }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
-- 
2.43.0


From 3ff96ec0b00fedfba67a6b17f351c2937e729607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 23/31] fix: iterating from an instant lists each constrained
 instant once, with a valid size hint

---
 src/graph/constraints.rs | 47 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..d43fa80 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,14 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i == self.graph.size() {
+            (0, Some(0))
+        } else {
+            // the end of the current row and then all the next ones
+            let row = (self.graph.size() - 1 - self.j) as usize;
+            let next_rows = (self.graph.size() - 1 - self.i) as usize;
+            (0, Some(row + next_rows * next_rows.saturating_sub(1) / 2))
+        }
     }
 }
 
@@ -207,35 +211,32 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
             // this iterator is a FusedIterator
             None
         } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
-                self.j += 1;
-
+            loop { // search the next constrained instant
                 if self.j == self.graph.size() {
                     self.i = self.graph.size();
-                    break;
-
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                    return None;
+                }
+                let current = TimeGraphConstraint {
+                    from: self.i,
+                    to: self.j,
+                    graph: self.graph
+                };
+                self.j += 1;
+                if current.from != current.to && !current.is_all() {
+                    return Some(current);
                 }
             }
-            Some(current)
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i >= self.graph.size() {
+            (0, Some(0))
+        } else {
+            (0, Some((self.graph.size() - self.j) as usize))
+        }
     }
 }
 
-- 
2.43.0


From 3351de05a326f6a54b384d452a0b18f2cfdb0a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:12 +0000
Subject: [PATCH 24/31] fix: an unreachable deadline or start line is rejected
 and the former scheduling restored

---
 src/graph/scheduler.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..4cc5732 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -59,14 +59,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
+            // the propagation could fail if some times are not supported by the other instants
+            let former = self.schedule.clone();
+            let result = (0..self.schedule.len() as u32)
+                .try_fold(TimePropagation::Unchanged,
                       |result, i|
-                          match self.retain(i, ..=deadline).unwrap() {
+                          Ok(match self.retain(i, ..=deadline)? {
                               TimePropagation::Unchanged => { result }
                               TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+                          }));
+            if result.is_err() { self.schedule = former; }
+            result
         }
     }
 
@@ -78,14 +81,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
+            // the propagation could fail if some times are not supported by the other instants
+            let former = self.schedule.clone();
+            let result = (0..self.schedule.len() as u32)
+                .try_fold(TimePropagation::Unchanged,
                       |result, i|
-                          match self.retain(i, startline..).unwrap() {
+                          Ok(match self.retain(i, startline..)? {
                               TimePropagation::Unchanged => { result }
                               TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+                          }));
+            if result.is_err() { self.schedule = former; }
+            result
         }
     }
 
-- 
2.43.0


From 040564327a5269e95e2ca910e5f8f510c8456f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:02 +0000
Subject: [PATCH 25/31] fix: upper size hint of the union of time windows
 counts the interval kept aside

---
 src/iter/union.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..7e71b70 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -234,9 +234,11 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
             _ => {
+                // when waiting, the temporary interval is still to come
+                let tmp = if let UnionState::Init = self.state { 0 } else { 1 };
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        return (0, imax.checked_add(jmax).and_then(|max| max.checked_add(tmp)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From ab4326333b27c888525ebe352108591bff7206d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 26/31] fix: upper size hint of the complement of time windows
 counts the last interval

---
 src/iter/compl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..d35a276 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -91,10 +91,11 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
     fn size_hint(&self) -> (usize, Option<usize>)
     {
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
+        if self.lower.is_future_infinite() {
             (min.saturating_sub(1), max)
         } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
+            // the complement has one more interval when the last bound is finite
+            (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
         }
     }
 }
-- 
2.43.0


From 032835fb7b44d1487116aeb6f6d8f92a255b5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 27/31] fix: very negative chrono durations become the past
 infinite, not the future one

---
 src/wins/timevalue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 8b5a904..423632e 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -267,6 +267,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
-- 
2.43.0


From 11ff2c073c52499864bde18baf4d5246d17eaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 28/31] fix: standard durations over 2^31 seconds that fit in a
 time value stay finite

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 423632e..97c6424 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -288,7 +288,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From 4289085c86c9573f1eb5adb15de94bb5d0d4e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:34 +0000
Subject: [PATCH 29/31] fix: time sequences start where they are asked to, and
 count and jump exactly

---
 src/seq/backward.rs | 26 ++++++++++++++++----------
 src/seq/forward.rs  | 24 +++++++++++++++---------
 src/seq/mod.rs      |  2 +-
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..64f67a5 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
@@ -31,11 +31,8 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
-        } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
-        }
+        // number of steps which remain strictly after the past infinite
+        (self.t.0.as_ticks().abs_diff(-i64::MAX).saturating_sub(1) / self.step.as_ticks() as u64) as usize
     }
 }
 
@@ -68,18 +65,27 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        (n > 0).then_some(self.jump(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
+            self.t = self.jump(n + 1);
             Some(self.t)
         }
     }
-}
\ No newline at end of file
+}
+
+impl TimeSeqBackward
+{
+    /// The timestamp `n` steps earlier, `n` being not greater than the length of the sequence
+    fn jump(&self, n: usize) -> Timestamp
+    {
+        Timestamp(TimeValue::from_ticks((self.t.0.as_ticks() as i128 - n as i128 * self.step.as_ticks() as i128) as i64))
+    }
+}
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..a0ccaef 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,11 +32,8 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
-        } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
-        }
+        // number of steps which remain strictly before the infinite
+        (i64::MAX.abs_diff(self.t.0.as_ticks()).saturating_sub(1) / self.step.as_ticks() as u64) as usize
     }
 }
 
@@ -69,18 +66,27 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        (n > 0).then_some(self.jump(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
+            self.t = self.jump(n + 1);
             Some(self.t)
         }
     }
-}
\ No newline at end of file
+}
+
+impl TimeSeqForward
+{
+    /// The timestamp `n` steps later, `n` being not greater than the length of the sequence
+    fn jump(&self, n: usize) -> Timestamp
+    {
+        Timestamp(TimeValue::from_ticks((self.t.0.as_ticks() as i128 + n as i128 * self.step.as_ticks() as i128) as i64))
+    }
+}
diff --git a/src/seq/mod.rs b/src/seq/mod.rs
index a375631..3aac9cf 100644
--- a/src/seq/mod.rs
+++ b/src/seq/mod.rs
@@ -40,7 +40,7 @@ impl Timestamp {
     }
 
     pub fn backward_periods(self, period: TimeValue) -> TimeSeqBackward {
-        TimeSeqBackward::new(self.ceil(period), period)
+        TimeSeqBackward::new(self.floor(period), period)
     }
 }
 
-- 
2.43.0


From f00b78ceb69452ecdfc5cd6013816a7cfa6f66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 30/31] fix: a time span made from a constraint whose bounds
 are reversed is the empty one

---
 src/graph/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/mod.rs b/src/graph/mod.rs
index 35d4e63..f7810ba 100644
--- a/src/graph/mod.rs
+++ b/src/graph/mod.rs
@@ -122,7 +122,7 @@ impl<K:TimeConstraint> From<K> for TimeSpan
 {
     #[inline]
     fn from(k: K) -> Self {
-        TimeInterval { lower: k.lower_bound(), upper: k.upper_bound() }
+        TimeInterval::new(k.lower_bound(), k.upper_bound())
     }
 }
 
-- 
2.43.0


From 6698304fa620b7f0157954824c303808430f0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:49 +0000
Subject: [PATCH 31/31] fix: a scaled sequence of intervals remains sorted and
 distinct whatever the factor

---
 src/iter/scaling.rs | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..a81f064 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,11 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // a negative factor reverses the order and a small one could join some intervals,
+        // so the intervals should be collected to remain sorted and distinct
+        self.map(|tw| tw * scale).collect::<TimeSet<I::TimePoint>>().into_iter()
     }
 }
-
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0

