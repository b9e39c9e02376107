"""More behaviour-preserving edits (other library functions, other control flow): refactors2.py [ID...]"""
import refactors as B
S, P, H, C, U, N, X, R, G = B.S, B.P, B.H, B.C, B.U, B.N, B.X, B.R, B.G
I = "src/wins/timeinterval.rs"
B.E.clear(); B.E.update({
"contain-partition": ("C08", [(R + "contain.rs", """        self.0.iter()
            .find(|ts| ts.upper_bound() >= rhs.lower_bound())
            .map(|ts| ts.contains(rhs))
            .unwrap_or(false)
""", """        let first = self.0.partition_point(|ts| ts.upper_bound() < rhs.lower_bound());
        self.0.get(first).map_or(false, |ts| ts.contains(rhs))
""")]),
"overlap-skip": ("C08 C22", [(R + "overlap.rs", """        self.0.iter()
            .find(|ts| ts.upper_bound() >= rhs.lower_bound())
            .map(|ts| ts.lower_bound() <= rhs.upper_bound())
            .unwrap_or(false)
""", """        let mut rest = self.0.iter().skip_while(|ts| ts.upper_bound() < rhs.lower_bound());
        matches!(rest.next(), Some(ts) if ts.lower_bound() <= rhs.upper_bound())
""")]),
"overlap-take": ("C08", [(R + "overlap.rs", """        self.0.iter()
            .find(|ts| ts.upper_bound() >= rhs.lower_bound())
            .map(|ts| ts.lower_bound() <= rhs.upper_bound())
            .unwrap_or(false)
""", """        self.0.iter()
            .take_while(|ts| ts.lower_bound() <= rhs.upper_bound())
            .any(|ts| ts.upper_bound() >= rhs.lower_bound())
""")]),
"sets-loop": ("C08", [(R + "contain.rs", """        rhs.into_iter().all(|tw| self.contains(&tw))
""", """        for tw in rhs.0.iter() {
            let inside = self.contains(tw);
            if !inside { return false }
        }
        true
"""), (R + "overlap.rs", """        rhs.into_iter().any(|tw| self.overlaps(&tw))
""", """        for tw in &rhs.0 { if self.overlaps(tw) { return true } }
        false
""")]),
"truncate-take": ("C09 C22", [(X, """        match self.0.iter().position(|i| i.upper_bound() >= lower)
        {
            Some(0) => {
                // only the first element could change
                unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower)
            }
            Some(pos) => {
                let _ = self.0.drain(0..pos);
                // SAFETY: the position is returned by position, at least one element remains
                let _ = unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower);
                true
            }
            None if self.is_empty() => { false }
            None => { self.0.clear(); true }
        }
""", """        let gone = self.0.iter().take_while(|i| i.upper_bound() < lower).count();
        self.0.drain(..gone);
        let cut = match self.0.first_mut() {
            Some(first) => first.truncate_before(lower),
            None => false
        };
        gone > 0 || cut
""")]),
"truncate-retain": ("C09", [(X, """        match self.0.iter().position(|i| i.upper_bound() >= lower)
        {
            Some(0) => {
                // only the first element could change
                unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower)
            }
            Some(pos) => {
                let _ = self.0.drain(0..pos);
                // SAFETY: the position is returned by position, at least one element remains
                let _ = unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower);
                true
            }
            None if self.is_empty() => { false }
            None => { self.0.clear(); true }
        }
""", """        let count = self.0.len();
        self.0.retain(|i| i.upper_bound() >= lower);
        let mut changed = count != self.0.len();
        if let Some(first) = self.0.first_mut() { changed |= first.truncate_before(lower); }
        changed
""")]),
"truncate-pop": ("C09", [(X, """        match self.0.iter().rposition(|i| i.lower_bound() <= upper)
        {
            Some(pos) if pos+1 == self.0.len() => {
                // only the last element could change
                unsafe { self.0.get_unchecked_mut(pos) }.truncate_after(upper)
            }
            Some(pos) => {
                self.0.truncate(pos+1);
                // SAFETY: the position is returned by rposition, so it is surely valid
                let _ = unsafe { self.0.get_unchecked_mut(pos) }.truncate_after(upper);
                true
            }
            None if self.is_empty() => { false }
            None => { self.0.clear(); true }
        }
""", """        let mut changed = false;
        while let Some(last) = self.0.last_mut() {
            if last.lower_bound() > upper { self.0.pop(); changed = true; continue }
            return last.truncate_after(upper) || changed;
        }
        changed
""")]),
"bounds-slices": ("C03 C25 C08", [(X, """        self.0.first()
            .map(TimeInterval::lower_bound)
            .unwrap_or(Self::TimePoint::INFINITE)
""", """        match self.0.as_slice() {
            [first, ..] => first.lower,
            [] => Self::TimePoint::INFINITE
        }
"""), (X, """        self.0.last()
            .map(TimeInterval::upper_bound)
            .unwrap_or(-Self::TimePoint::INFINITE)
""", """        let Some(last) = self.0.last() else { return -Self::TimePoint::INFINITE };
        last.upper_bound()
"""), (X, """        self.0.first().map(|s| s.is_low_bounded()).unwrap_or(false)
""", """        self.0.first().is_some_and(|s| s.is_low_bounded())
"""), (X, """        (self.0.len() == 1) && unsafe { self.0.get_unchecked(0).is_singleton() }
""", """        if let [only] = &self.0[..] { only.is_singleton() } else { false }
""")]),
"collect-let-else": ("C07 C04", [(X, """        match iter.next() {
            None => Self::empty(),
            Some(first) => iter.fold(first.into(), |mut r, i| {
                // very most of the time, time iterators are chronologically sorted
                // so if the gap is more than one tick, just add the new convex at the end
                if i.lower_bound() > r.upper_bound().just_after() {
                    r.0.push(i)
                } else {
                    r |= i
                }
                r
            })
        }
""", """        let Some(first) = iter.next() else { return Self::empty() };
        let mut r = Self(vec![first]);
        while let Some(i) = iter.next() {
            let sorted = r.0.last().is_some_and(|last| last.upper.just_after() < i.lower);
            if sorted { r.0.push(i) } else { r |= i }
        }
        r
""")]),
"collect-sets": ("C07", [(X, """        iter.into_iter()
            .reduce(|r,s| r|s)
            .unwrap_or(TimeSet::empty())
""", """        let mut all = TimeSet::empty();
        for s in iter { all = all | s; }
        all
""")]),
"union-replace": ("C04", [(U, """                        Some(mut i) if self.tmp.upper < i.lower.just_before()  => {
                            // i:                          [------------------]
                            // tmp:        [--------]
                            //=>tmp:                       [------------------]
                            self.state = UnionState::WaitJ;
                            swap(&mut self.tmp, &mut i);
                            return Some(i);
""", """                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
                            self.state = UnionState::WaitJ;
                            return Some(std::mem::replace(&mut self.tmp, i));
"""), (U, """                        Some(i) if i.upper <= self.tmp.upper => {
                            // i:     [------------------]       or           [-----------]
                            // tmp:                [--------]    or    [----------------------]
                            //=>tmp:  [---------------------]    or    [----------------------]
                            if self.tmp.lower > i.lower { self.tmp.lower = i.lower; }
                        },
                        Some(i) => {
                            // i:     [------------------]      or           [----------------]
                            // tmp:         [--------]          or     [------------------]
                            //=>tmp   [------------------]      or     [----------------------]
                            self.state = UnionState::WaitJ;
                            if self.tmp.lower > i.lower { self.tmp.lower = i.lower; }
                            self.tmp.upper = i.upper;
                        },
""", """                        Some(i) => {
                            self.tmp.lower = self.tmp.lower.min(i.lower);
                            if i.upper > self.tmp.upper {
                                self.state = UnionState::WaitJ;
                                self.tmp.upper = i.upper;
                            }
                        },
""")]),
"compl-question": ("C06 C05", [(C, """            let start = self.iter.next()
                .and_then(|next| {
                    let upper = next.lower_bound().just_before();
                    self.lower = next.upper_bound().just_after();
                    if upper == -I::TimePoint::INFINITE {
                        None
                    } else {
                        Some(TimeInterval { lower: -I::TimePoint::INFINITE, upper})
                    }
                });
            if start.is_some() { return start; }
""", """            if let Some(next) = self.iter.next() {
                self.lower = next.upper_bound().just_after();
                let upper = next.lower_bound().just_before();
                if !upper.is_past_infinite() { return Some(TimeInterval::before(upper)); }
            }
"""), (C, """            let result = TimeInterval {
                lower: self.lower,
                upper: I::TimePoint::INFINITE
            };
            self.lower = I::TimePoint::INFINITE;
            Some(result)
""", """            Some(TimeInterval::after(std::mem::replace(&mut self.lower, I::TimePoint::INFINITE)))
""")]),
"merge-for": ("C19 C18", [(P, """        self.data.iter_mut()
            .zip(graph.data)
            .for_each(|(a,b)| if *a < b { *a = b; change = true; });
""", """        for (a, b) in self.data.iter_mut().zip(graph.data.iter()) {
            if b > a { *a = *b; change = true; }
        }
""")]),
"extend-if": ("C19 C20", [(P, """        match iter.size_hint() {
            (_, Some(0)) => {
                Ok(TimePropagation::Unchanged)
            }
            (_, Some(1)) => {
                match iter.next() {
                    None => Ok(TimePropagation::Unchanged),
                    Some(k) => self.propagate(k)
                }
            }
            _ => {
""", """        match iter.size_hint().1 {
            Some(most) if most <= 1 => {
                if let Some(k) = iter.next() { self.propagate(k) } else { Ok(TimePropagation::Unchanged) }
            }
            _ => {
"""), (P, """                        let max = k.from().max(k.to());
                        assert!(max < Instant::MAX, "index out of bounds");
                        if max >= self.size() { self.resize(max+1) }
""", """                        let max = if k.from() < k.to() { k.to() } else { k.from() };
                        assert!(max != Instant::MAX, "index out of bounds");
                        let needed = max + 1;
                        if needed > self.size { self.resize(needed) }
""")]),
"cell-index": ("C16 C20 C21", [(S, """        let ij = if i >= j { i*i + j } else { j*(j+2) - i };
        *self.data.get_unchecked(ij as usize)
""", """        *self.data.get_unchecked(Self::cell(i, j))
"""), (S, """        let ij = if i >= j { i*i + j } else { j*(j+2) - i };
        self.data.get_unchecked_mut(ij as usize)
    }
""", """        self.data.get_unchecked_mut(Self::cell(i, j))
    }

    // cells of the square of side max(i,j)+1, along the row then back along the column
    #[inline]
    fn cell(i: usize, j: usize) -> usize {
        match i.cmp(&j) {
            Ordering::Less => (j + 1) * (j + 1) - 1 - i,
            _ => i * i + j
        }
    }
""")]),
"instant-cmp": ("C16", [(S, """            let ij = unsafe { self.lower(i,j) };
            if ij.is_strictly_positive() {
                Some(Ordering::Less)
            } else {
                let ji = unsafe { self.lower(j,i) };
                if ji.is_strictly_positive() {
                    Some(Ordering::Greater)
                } else if ij == TimeValue::default() && ji == TimeValue::default() {
                    Some(Ordering::Equal)
                } else {
                    None
                }
            }
""", """            let (ij, ji) = unsafe { (self.lower(i,j), self.lower(j,i)) };
            match (ij.is_strictly_positive(), ji.is_strictly_positive()) {
                (true, _) => Some(Ordering::Less),
                (false, true) => Some(Ordering::Greater),
                (false, false) => (ij.is_zero() && ji.is_zero()).then_some(Ordering::Equal),
            }
""")]),
"deadline-direct": ("C22 C32", [(H, """            let former = self.schedule.clone();
            let result = (0..self.schedule.len() as u32)
                .try_fold(TimePropagation::Unchanged,
                      |result, i|
                          Ok(match self.retain(i, startline..)? {
                              TimePropagation::Unchanged => { result }
                              TimePropagation::Propagated => { TimePropagation::Propagated }
                          }));
            if result.is_err() { self.schedule = former; }
            result
""", """            let former = self.schedule.clone();
            let mut outcome = TimePropagation::Unchanged;
            for i in 0..self.schedule.len() {
                match self.retain(i as u32, startline..) {
                    Ok(TimePropagation::Propagated) => outcome = TimePropagation::Propagated,
                    Ok(_) => {}
                    Err(e) => {
                        let _ = std::mem::replace(&mut self.schedule, former);
                        return Err(e);
                    }
                }
            }
            Ok(outcome)
"""), (H, """        self.schedule.iter().map(|i| i.upper_bound()).min().unwrap()
""", """        let (first, others) = self.schedule.split_first().unwrap();
        others.iter().fold(first.upper_bound(), |least, i| least.min(i.upper_bound()))
""")]),
"retain-locals": ("C22", [(H, """        unsafe {
            if tw.contains(self.schedule.get_unchecked(i as usize)) {
                Ok(TimePropagation::Unchanged)
            } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                Err(TimeInconsistencyError::Recovered)
            } else {
                *self.schedule.get_unchecked_mut(i as usize) &= tw;
                self.propagate_scheduling(i);
                Ok(TimePropagation::Propagated)
            }
        }
""", """        let slots = &mut self.schedule[i as usize];
        if tw.contains(slots) { return Ok(TimePropagation::Unchanged) }
        if !tw.overlaps(slots) { return Err(TimeInconsistencyError::Recovered) }
        *slots &= tw;
        self.propagate_scheduling(i);
        Ok(TimePropagation::Propagated)
""")]),
"mul-wide": ("C15 C14", [("src/ops/scaling.rs", """    TimeValue::from_ticks(t.0.saturating_mul(n))
""", """    match t.0.checked_mul(n) {
        Some(ticks) => TimeValue::from_ticks(ticks),
        None if (t.0 < 0) == (n < 0) => TimeValue::INFINITE,
        None => -TimeValue::INFINITE
    }
""")]),
"order-match": ("C23", [(R + "ordering.rs", """                if self.lt(other){
                    Some(Ordering::Less)
                } else if self.gt(other) {
                    Some(Ordering::Greater)
                } else if self.eq(other) {
                    Some(Ordering::Equal)
                } else {
                    None
                }
""", """                match (self.eq(other), self.lt(other)) {
                    (true, _) => Some(Ordering::Equal),
                    (_, true) => Some(Ordering::Less),
                    _ => self.gt(other).then_some(Ordering::Greater)
                }
"""), (R + "ordering.rs", """        self.iter().eq(other.iter())
""", """        let (mut a, mut b) = (self.0.iter().copied(), other.iter());
        loop {
            match (a.next(), b.next()) {
                (None, None) => return true,
                (Some(x), Some(y)) => if x.lower != y.lower || x.upper != y.upper { return false },
                _ => return false
            }
        }
""")]),
"truncate-max": ("C09", [(I, """        if lower <= self.lower {
            false
        } else {
            if self.upper < lower || lower.is_future_infinite() {
                *self = Self::empty();
            } else {
                self.lower = lower;
            }
            true
        }
""", """        let changed = lower > self.lower;
        if changed {
            *self = if lower > self.upper || lower == T::INFINITE { Self::empty() } else { Self { lower, ..*self } };
        }
        changed
""")]),
"transl-early": ("C14", [("src/ops/transl.rs", """        if self.is_empty() { return; }
        if other.is_empty() { *self = Self::empty(); return; }
        self.lower += other.lower;
        self.upper += other.upper;
        *self = TimeInterval::new(self.lower, self.upper);
""", """        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
        let TimeInterval { mut lower, mut upper } = *self;
        upper += other.upper;
        lower += other.lower;
        *self = TimeInterval::new(lower, upper);
""")]),
"reset-resize": ("C21", [(S, """        self.data.fill(-TimeValue::INFINITE);
        (0..self.size).for_each(|i| unsafe {
            // setting all constraint (i,i) to 0 (constraint from i to itseltf)
            *self.lower_mut(i,i) = TimeValue::default();
        });
    }
""", """        let size = std::mem::take(&mut self.size);
        self.data.clear();
        self.resize(size);
    }
""")]),
"print-table": ("C33", [("src/wins/format.rs", """    let ticks = (t, String::new());
    let ticks = concat_unit(ticks, TimeValue::from_years, "y");
    let ticks = concat_unit(ticks, TimeValue::from_months, "mo");
    let ticks = concat_unit(ticks, TimeValue::from_days, "d");
    let ticks = concat_unit(ticks, TimeValue::from_hours, "h");
    let ticks = concat_unit(ticks, TimeValue::from_mins, "min");
    let ticks = concat_unit(ticks, TimeValue::from_secs, "s");
""", """    let units: [(fn(i64) -> TimeValue, &str); 6] = [
        (TimeValue::from_years, "y"), (TimeValue::from_months, "mo"), (TimeValue::from_days, "d"),
        (TimeValue::from_hours, "h"), (TimeValue::from_mins, "min"), (TimeValue::from_secs, "s")
    ];
    let mut ticks = (t, String::new());
    for (convert, unit) in units { ticks = concat_unit(ticks, convert, unit); }
""")]),
"print-write": ("C33", [("src/wins/format.rs", """    if nanos > 0 {
        str = format!("{}{}ns ", str, nanos);
    }
""", """    if nanos != 0 {
        use std::fmt::Write;
        write!(str, "{}ns ", nanos).unwrap();
    }
"""), ("src/wins/format.rs", """    if str.pop().is_none() {
        "0".to_string()
    } else {
        str
    }
""", """    match str.trim_end() {
        "" => String::from("0"),
        text => text.to_owned()
    }
""")]),
"print-date": ("C33 C27", [("src/wins/timestamp.rs", """        NaiveDateTime::from_timestamp_opt( value.0.as_secs(), value.0.subsec_nanos() as u32).unwrap()
""", """        let (secs, nanos) = (value.0.as_secs(), value.0.subsec_nanos());
        DateTime::<Utc>::from_timestamp(secs, nanos as u32).expect("a timestamp is a date").naive_utc()
""")]),
})
if __name__ == "__main__": B.main()
