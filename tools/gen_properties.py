#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay reviewable)."""
import json, sys
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [w for _, w in mech]}})

p("C01", "Interval construction yields a valid or canonically empty interval",
  "Every safe way of building a time interval (new, singleton, after, before, all, empty, default, centered, conversion from a pair, a point, a graph constraint or a Rust range, truncation, negation) yields either the one canonical empty interval or an interval whose lower bound is not above its upper bound, whose lower bound is not +oo and whose upper bound is not -oo. (Centering where an infinity is subtracted from another is excluded.) A finite point belongs to the built interval exactly when it lies between the requested bounds, and is_empty is true exactly when no finite point belongs to it.",
  "for all pairs of bounds, finite or infinite, in both time domains",
  "The tests build a handful of finite intervals; emptiness with equal, inverted or infinite bounds is never exercised.",
  ["src/wins/timeinterval.rs", "src/ops/range.rs"],
  [("constructors", "src/wins/timeinterval.rs: TimeInterval::new/singleton/after/before"), ("range conversion", "src/ops/range.rs: timerange!")])
p("C02", "Intersection of two intervals is exact and canonical",
  "The intersection (& and &=) of an interval or a time point with any convex window contains a finite point exactly when both operands contain it. When no point is common the result is the canonical empty interval, recognised by is_empty and equal to every other empty interval.",
  "for all pairs of intervals, including empty, half-bounded and unbounded ones, and every operand kind (interval, reference, time point, range)",
  "The intersection test in the repository is an empty function.",
  ["src/ops/intersect.rs"], [("BitAnd/BitAndAssign for TimeInterval", "src/ops/intersect.rs")])
p("C03", "Union of two convex windows is exact and canonical",
  "The union (|) of two convex windows (intervals, time points, ranges) contains a finite point exactly when one of the operands contains it. The result lists its intervals in increasing order, non-empty, disjoint and separated by at least one tick (touching intervals are merged).",
  "for all pairs of convex windows, including empty ones, in both orders",
  "Three unions of fixed values are tested.",
  ["src/ops/union.rs"], [("BitOr for TimeInterval/TimeValue/Timestamp", "src/ops/union.rs")])
p("C04", "The union iterator and set unions are exact and canonical",
  "For any two sorted sequences of disjoint, non-adjacent intervals, the union iterator and the | and |= operators between a time set and a set, an interval, a point or a range produce a sorted sequence of non-empty, disjoint, non-adjacent intervals. A finite point belongs to the result exactly when it belongs to at least one operand; no interval of either operand is lost or produced twice.",
  "for all pairs of canonical sets of any length, all interleavings of their intervals",
  "The tests join sets of at most one interval each, so neither the waiting states nor the tail states of the merge are reached with remaining intervals.",
  ["src/iter/union.rs", "src/ops/union.rs"],
  [("merge automaton", "src/iter/union.rs: IterUnion::next"), ("operators", "src/ops/union.rs")], over=("inputs", "histories"))
p("C05", "The intersection iterator and set intersections are exact and canonical",
  "For any two sorted sequences of disjoint, non-adjacent intervals, the intersection iterator and the & and &= operators between a time set and a set, an interval, a point or a range produce a sorted sequence of non-empty, disjoint, non-adjacent intervals. A finite point belongs to the result exactly when it belongs to both operands.",
  "for all pairs of canonical sets of any length, all interleavings of their intervals",
  "Only one intersection chain of three complements of fixed values is tested.",
  ["src/iter/intersect.rs", "src/ops/intersect.rs"],
  [("merge automaton", "src/iter/intersect.rs: IterIntersection::next"), ("operators", "src/ops/intersect.rs")], over=("inputs", "histories"))
p("C06", "Complement and exclusion are exact and canonical",
  "The complement (!) of a time point, an interval or a time set, and the complementary iterator, contain a finite point exactly when the operand does not, and list sorted, non-empty, disjoint, non-adjacent intervals. The exclusion iterator of A and B contains exactly the points of A that are not in B.",
  "for all points, intervals and canonical sets of any length, including the empty and the full ones and sets that touch an infinite bound",
  "The complementary test in the repository is an empty function; one fixed expression is checked elsewhere.",
  ["src/ops/compl.rs", "src/iter/compl.rs", "src/iter/excl.rs"],
  [("Not impls", "src/ops/compl.rs"), ("IterComplementary::next", "src/iter/compl.rs"), ("TimeExclusion", "src/iter/excl.rs")], over=("inputs", "histories"))
p("C07", "Building a time set from parts keeps the canonical form",
  "Collecting any list of intervals, in any order, overlapping, adjacent, empty or not, into a time set gives the set of exactly the points of those intervals, stored sorted, non-empty, disjoint and non-adjacent. The same canonical form holds for every other way of building a set: all, empty, convex, singleton, and conversion from any convex window.",
  "for all finite sequences of intervals in any order",
  "No test collects unsorted, adjacent or empty intervals.",
  ["src/wins/timeset.rs"], [("FromIterator<TimeInterval<T>>", "src/wins/timeset.rs"), ("TimeSet constructors", "src/wins/timeset.rs")], over=("inputs", "histories"))
p("C08", "Containment and overlap answer exactly",
  "A convex window contains a point exactly when the point lies between its bounds, and contains another non-empty window exactly when every point of the latter is in the former; a time set contains a point, an interval or a set under the same rule. Two non-empty windows (convex or sets, in either position) overlap exactly when they have a point in common; the answer does not depend on which one is asked.",
  "for all windows, all points, all canonical sets of any length",
  "One set of three intervals is probed at four fixed points; overlaps is never tested.",
  ["src/relns/contain.rs", "src/relns/overlap.rs"], [("TimeContaining impls", "src/relns/contain.rs"), ("TimeOverlapping impls", "src/relns/overlap.rs")])
p("C09", "Truncation keeps exactly the requested side",
  "truncate_before(t) on an interval or a time set keeps exactly the points not before t and truncate_after(t) exactly the points not after t, leaving the window in canonical form. They return true exactly when the window lost at least one point.",
  "for all intervals and canonical sets of any length, all finite cut points",
  "Truncation is not tested at all.",
  ["src/wins/timeinterval.rs", "src/wins/timeset.rs"], [("TimeTruncation for TimeInterval", "src/wins/timeinterval.rs"), ("TimeTruncation for TimeSet", "src/wins/timeset.rs")])
p("C10", "Infinity absorbs and arithmetic never wraps",
  "Adding or subtracting time values, negating them, and shifting a timestamp give the exact result when it fits and the infinity of the right sign when it does not; an infinite operand gives the same infinity whatever the finite other operand is. The representation never holds a value below -oo, infinities are told apart from finite values by the three predicates, and the tick just after or before an infinite point is that point.",
  "for all 64-bit tick values, finite and infinite",
  "Tests add small positive durations only.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs"], [("Add/Sub/Neg/AddAssign/SubAssign", "src/wins/timevalue.rs"), ("Timestamp arithmetic", "src/wins/timestamp.rs")])
p("C11", "Unit constructors scale exactly and saturate to the right infinity",
  "Building a duration from n seconds, minutes, hours, days or weeks gives exactly n times that unit in ticks when representable, from sub-second units the same rounded by less than one tick toward zero, and otherwise +oo for positive n and -oo for negative n, never a wrapped value. The integer extension methods (5.hours(), ...) agree with the constructors for every integer type and value.",
  "for all 64-bit (and wider) integer counts and every unit",
  "Tests convert a few small positive constants.",
  ["src/wins/timevalue.rs", "src/wins/convert.rs"], [("from_secs/from_fract", "src/wins/timevalue.rs"), ("convert_safely!", "src/wins/convert.rs")])
p("C12", "Rounding to a period is exact on both sides of zero",
  "For a finite value and a strictly positive finite period, floor gives the greatest multiple of the period not above the value and ceil the least multiple not below it; an infinite value is left unchanged. Rounding a timestamp does the same relative to the origin, and truncating a duration to a unit rounds toward zero to a multiple of that unit.",
  "for all finite values of either sign and all positive periods whose result is representable",
  "Tests round a few values; negative values are tested only where the formula happens to agree.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs", "src/wins/convert.rs"], [("TimeValue::floor/ceil", "src/wins/timevalue.rs"), ("IntoTimeValue for TimeValue", "src/wins/convert.rs")])
p("C13", "Translation of windows is exact and all spellings agree",
  "Adding (subtracting) a duration to an interval or a time set moves every finite bound by exactly that duration, keeps infinite bounds infinite, keeps the empty window empty and keeps sets canonical, as long as no bound overflows. Adding two intervals gives the interval of the sums of the bounds, subtracting crosses the bounds; the assigning operators, and the operators with a timestamp on either side, give the same result as the plain ones.",
  "for all intervals and all canonical sets of at most three intervals, and all durations of either sign, as long as no bound overflows",
  "Translation operators are not tested.",
  ["src/ops/transl.rs"], [("Add/Sub/AddAssign/SubAssign impls", "src/ops/transl.rs")])
p("C14", "Translating an interval sequence keeps it canonical and exact",
  "Translating a sorted sequence of disjoint intervals by a non-empty interval of durations, as an iterator or with + and - between a time set and an interval or a set of durations, gives a sorted sequence of non-empty, disjoint, non-adjacent intervals. A finite point belongs to the result exactly when it is the sum (difference) of a point of the sequence and a duration of the interval.",
  "for all canonical sequences of at most three intervals and all non-empty intervals of durations that do not overflow; for set plus or minus set, the pairs of a sequence with one interval, and of one interval with a set of two",
  "The translation iterator is not tested; the merge of intervals that meet after widening never runs.",
  ["src/iter/transl.rs", "src/ops/transl.rs"], [("TimeTranslation iterator", "src/iter/transl.rs"), ("Add<TimeSpan> for TimeSet", "src/ops/transl.rs")], over=("inputs", "histories"))
p("C15", "Integer scaling is exact, saturates and preserves canonical form",
  "Multiplying a duration by an integer of any integer type gives the exact product when it is representable and the infinity of the right sign otherwise; dividing by a nonzero integer gives the quotient truncated toward zero; an infinite duration stays infinite, with the sign of the product. Scaling a non-empty interval scales both bounds and swaps them when the factor is negative (a product with no representable point panics). Scaling a set of intervals, or a sequence of intervals, scales every interval and keeps the set sorted and canonical, joining the intervals which come to touch; a non-empty set times zero is the set of the zero duration. The assigning operators agree with the plain ones.",
  "for all durations, all factors of all integer types (for intervals and sets: factors of at most i64::MAX in absolute value), all intervals, and all sets of at most three intervals",
  "Scaling is not tested.",
  ["src/ops/scaling.rs"], [("timevalscaling* macros", "src/ops/scaling.rs"), ("TimeSpan/TimeSpans scaling", "src/ops/scaling.rs")])
p("C16", "Every view of a graph constraint agrees, in both orientations",
  "For any two instants, timespan(i,j), constraint(i,j), and the constraints met by iterating from i, to i or over the whole graph report the same bounds, and the constraint from j to i is the negation of the one from i to j. An instant is unconstrained to itself except for the duration 0, unknown instants are unconstrained, and each iteration lists every constrained pair exactly once and nothing unconstrained. Two constraints are equivalent exactly when they state the same bounds on the same pair of instants, in either orientation, and a constraint handed to another graph keeps its meaning.",
  "for all graphs of at most four instants with arbitrary bounds, and all pairs of instants, inside or outside the graph",
  "Tests compare whole propagation results on graphs with at most seven instants; no test compares the two orientations or the iterators.",
  ["src/graph/storage.rs", "src/graph/constraints.rs"], [("lower/timespan cell addressing", "src/graph/storage.rs"), ("constraint iterators", "src/graph/constraints.rs")])
p("C17", "Propagation is exact: bounds never loosen and every path counts",
  "After a constraint is accepted, each pair of instants is bounded by exactly the tightest of its previous bounds and of the bounds implied through the new constraint; no bound is loosened, no unrelated bound changes, and the result is Unchanged exactly when nothing was tightened. This holds whether or not the instants were already in the graph, in both orientations and for a constraint of an instant with itself.",
  "for all consistent graphs of at most three instants and all constraints between their instants or instants up to two beyond, whose bounds are infinite or small enough that their sums do not overflow",
  "The tests propagate a few constraints in graphs of three to seven instants.",
  ["src/graph/propagation.rs", "src/graph/mod.rs"], [("propagate", "src/graph/propagation.rs"), ("propagate_lower_bound", "src/graph/propagation.rs")], over=("inputs", "histories"))
p("C18", "A rejected constraint leaves the graph as it was",
  "When propagating one constraint reports a recovered inconsistency, every bound of the graph and its size are what they were before the call. An inconsistent or empty constraint is always rejected, never silently stored.",
  "for all consistent graphs of at most three instants, all constraints that contradict them and all empty constraints, including constraints on instants new to the graph, whose bounds are infinite or small enough that their sums do not overflow",
  "No test checks the graph after an inconsistency.",
  ["src/graph/propagation.rs"], [("propagate", "src/graph/propagation.rs")], over=("inputs", "histories"))
p("C19", "Batch propagation closes the graph or reports corruption",
  "Extending a graph with several constraints, or merging two graphs, intersects every stored bound with the given ones and closes the result under composition through every instant; the outcome is Ok only if no instant is forced to differ from itself. When the outcome is a fatal inconsistency the graph is left empty, with no bound from before the failure able to reappear.",
  "for all consistent propagated graphs of at most three instants (two before the extension for lists of two constraints, or three with a single pair of them constrained), and all lists of at most two constraints in any order, or all pairs of graphs whose sizes are at most two and three, whose bounds are infinite or small enough that their sums do not overflow",
  "The tests extend graphs with consistent, already propagated constraints.",
  ["src/graph/propagation.rs"], [("extend", "src/graph/propagation.rs"), ("global_propagation", "src/graph/propagation.rs"), ("merge", "src/graph/propagation.rs")], over=("inputs", "histories"))
p("C20", "Every unchecked access is within bounds",
  "No safe call of the public interface of graphs, schedulers and sets reads or writes outside the storage it addresses, whatever instants or windows it is given. A query about an instant outside the graph treats it as unconstrained; restricting an instant outside a scheduler is refused.",
  "for all graphs of any size that fits in memory, all instants and constraints (lists of any length), all canonical sets of any length; the refusal is checked for schedulers of at most three instants",
  "An out-of-bounds unchecked access is undefined behaviour that the tests would not notice, and they use valid indexes only.",
  ["src/graph/storage.rs", "src/graph/constraints.rs", "src/graph/scheduler.rs", "src/wins/timeset.rs"],
  [("get_unchecked calls", "src/graph/storage.rs"), ("get_unchecked calls", "src/graph/scheduler.rs"), ("get_unchecked calls", "src/wins/timeset.rs")])
p("C21", "Resizing, shrinking and resetting keep the right constraints",
  "Growing a graph keeps all its bounds and adds unconstrained instants; shrinking it keeps the bounds between the remaining instants; shrink_to_fit removes only trailing instants that no constraint mentions; reset keeps the size and removes every constraint. After each of them every instant is at duration exactly 0 from itself.",
  "for all graphs of at most four instants and all target sizes up to five",
  "Tests grow an empty graph once and ignore the result of shrinking.",
  ["src/graph/storage.rs"], [("resize/shrink_to_fit/reset/with_size", "src/graph/storage.rs")], over=("inputs", "histories"))
p("C22", "Scheduling only shrinks windows, follows the graph and rejects cleanly",
  "Restricting one instant of a scheduler to a window leaves that instant's set as the intersection of the old set and the window, and every other instant's set as the intersection of its old set with the restricted set translated by the constraint between them; no other change is made. A rejected restriction, deadline or start line changes nothing, and a restriction that changes nothing is reported Unchanged.",
  "for all graphs of at most three instants, all windows, and all schedulings of the instants, the restricted instant having at most two intervals and the others one (or, in a graph of two instants, the other way round), with bounds small enough that their sums do not overflow",
  "One deadline and one start line are set on one three-instant graph and only the result code is compared.",
  ["src/graph/scheduler.rs"], [("retain/remove/propagate_scheduling", "src/graph/scheduler.rs"), ("set_deadline/set_startline", "src/graph/scheduler.rs")], over=("inputs", "histories"))
p("C23", "Equality and order of windows are coherent with their points",
  "Two windows, sets or intervals in any mix, are equal exactly when they contain the same points. One non-empty window is less than another exactly when all its points come before all points of the other, greater is the mirror of less, and at most one of less, equal and greater holds; the partial comparison reports exactly that one. Equal values, instants and intervals are hashed alike.",
  "for all pairs of windows",
  "Only equality of a few equal fixed values is asserted.",
  ["src/relns/ordering.rs"], [("PartialEq/PartialOrd impls", "src/relns/ordering.rs")])
p("C24", "Interval iterators stay exhausted and never lie about their size",
  "Once a union, intersection, complement, exclusion, translation, set or graph-constraint iterator has returned nothing it keeps returning nothing. At any moment of the iteration the lower size hint is not above and the upper size hint is not below the number of items still to come, and asking for it does not panic.",
  "for all canonical operands (sets of any length and intervals, in any of the listed iterators) and all moments of the iteration; graphs of at most four instants; translations whose sums do not overflow",
  "No test calls next after exhaustion or reads a size hint in the middle of an iteration.",
  ["src/iter/union.rs", "src/iter/intersect.rs", "src/iter/compl.rs", "src/iter/transl.rs", "src/graph/constraints.rs"],
  [("Iterator::next/size_hint", "src/iter/*.rs"), ("Iterator::next/size_hint", "src/graph/constraints.rs")], over=("inputs", "histories"))
p("C25", "Boundedness predicates describe the bounds",
  "For every window (interval, set, range, finite time point, graph constraint), is_empty, is_singleton, is_low_bounded, is_up_bounded, is_bounded, is_all, is_convex, convex_count, lower_bound, upper_bound and convex_envelope describe the same set of points: a non-empty window is low (up) bounded exactly when it has a least (greatest) finite point, which is then its lower (upper) bound, and an empty window is neither bounded nor a singleton. Its canonical interval iteration yields nothing exactly when it is empty.",
  "for all windows of all kinds, including empty and infinite ones",
  "The predicates are never asserted on by the tests.",
  ["src/wins/mod.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs", "src/ops/range.rs"],
  [("TimeBounds/TimeWindow impls", "src/wins/timeinterval.rs"), ("TimeBounds impls", "src/ops/range.rs")])
p("C26", "The canonical representation cannot be broken from outside",
  "Code outside the crate, without unsafe, cannot write the bounds of an interval, the list of a set, the ticks of a value or the matrix of a graph, nor obtain a mutable reference to them, and cannot build one from raw parts. A scheduler and the constraints obtained from a graph keep that graph borrowed: it cannot be modified or dropped while they are used.",
  "for all programs that use the crate without unsafe code",
  "A test suite cannot show that a program does not compile.",
  ["src/wins/timeinterval.rs", "src/wins/timeset.rs", "src/wins/timevalue.rs", "src/graph/mod.rs", "src/graph/scheduler.rs", "src/graph/constraints.rs"],
  [("field visibility", "src/wins/*.rs, src/graph/*.rs"), ("lifetimes", "src/graph/scheduler.rs, src/graph/constraints.rs")], over=("programs",))
p("C27", "Conversions to and from std and chrono durations and dates are faithful",
  "Converting a standard or chrono duration to a time value gives a number of ticks within one tick of it, or the infinity of the right sign when it does not fit; it never wraps. Converting a finite time value to a chrono duration, or a non-negative one to a standard duration, gives a duration within one nanosecond of it; a negative one has no standard duration. A finite timestamp becomes the UTC date within one nanosecond of it, in the same order as the timestamps, and a date whose nanoseconds since 1970 fit in 64 bits becomes the timestamp within one tick of it, or the infinity of its side when it is out of reach.",
  "for all durations of both libraries, all finite time values and timestamps, and all dates from 1678 to 2261 without leap second",
  "No test converts durations.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs"], [("From impls", "src/wins/timevalue.rs"), ("to_datetime and From impls", "src/wins/timestamp.rs")])
p("C28", "Timestamp sequences follow their period",
  "A forward (backward) sequence from a finite timestamp yields that timestamp first and then each timestamp one period later (earlier), until the next one is not representable; the periodic variants start at the first multiple of the period at or after (before) it. Skipping, taking the last, counting and size hints agree with stepping one by one, and an ended sequence stays ended.",
  "for all finite start timestamps and all positive finite periods such that one period before (after) the start of a forward (backward) sequence is representable; skipping is checked from the first two timestamps, the rest from any moment",
  "Sequences are not tested.",
  ["src/seq/forward.rs", "src/seq/backward.rs", "src/seq/mod.rs"], [("Iterator impls", "src/seq/forward.rs, src/seq/backward.rs")], over=("inputs", "histories"))
p("C32", "Measures of values and schedules agree with their bounds",
  "The duration of a time slot is the distance of its bounds, zero for a point or the empty slot and infinite when the slot is unbounded or the distance does not fit; whole seconds and the fractional part (nanoseconds, and the coarser units cut from them) give the value back within one nanosecond, the fractional part being non-negative and below one second, also for negative values; the sign predicates tell the sign; a timestamp is its duration since the origin; a scheduler's latest beginning is the least of its upper bounds and its earliest ending the greatest of its lower bounds.",
  "for all time values (finite ones for seconds and fractions), all slots, and schedulers of one to three instants",
  "No test reads these measures.",
  ["src/wins/timevalue.rs", "src/wins/timeinterval.rs", "src/wins/timestamp.rs", "src/graph/scheduler.rs"], [("duration", "src/wins/timeinterval.rs"), ("as_secs, subsec_*", "src/wins/timevalue.rs"), ("latest_beginning, earliest_ending", "src/graph/scheduler.rs")])
p("C33", "Printing a value never fails",
  "Displaying, debug-printing or formatting (TimePointFormat, TimeSetFormat) any duration, timestamp, interval, set of intervals, constraint, graph or schedule never panics: infinite, negative, zero and empty values included, no arithmetic of the printing code overflows, nothing is read outside the arrays, and the conversion of a timestamp to a date always succeeds.",
  "for all durations, timestamps and intervals, sets of any length, graphs of up to three instants, schedules of up to two instants whose sets have at most one interval (only the errors of the writer and a malformed chrono format string excepted)",
  "No test prints an infinite, negative or empty value; a failure in printing strikes the logs and error paths of users.",
  ["src/wins/format.rs", "src/wins/timestamp.rs", "src/graph/storage.rs", "src/graph/scheduler.rs", "src/graph/constraints.rs"], [("Display/Debug impls, format_duration, format_timeslot", "src/wins/format.rs"), ("From<Timestamp> for NaiveDateTime", "src/wins/timestamp.rs"), ("Display/Debug of graphs", "src/graph/storage.rs")])
p("C29", "Printed time values read back to the value they show",
  "The text printed for a duration, an interval, a set, a timestamp or a graph names exactly the units, bounds and separators of the value, with no unit lost, doubled or misnamed, within the printed precision.",
  "for all values",
  "A few round values are formatted.",
  ["src/wins/format.rs"], [("Display/Debug/format impls", "src/wins/format.rs")])
p("C30", "Floating-point scaling is within rounding error",
  "Scaling a duration, an interval or a set by a floating-point factor gives bounds within floating rounding error of the exact product, saturating to the right infinity, and keeps sets canonical.",
  "for all values and all finite factors",
  "Float scaling is not tested.",
  ["src/ops/scaling.rs"], [("float scaling impls", "src/ops/scaling.rs")])
p("C31", "Serialised data reads back equal and valid",
  "With the serde feature, every time value, timestamp, interval and set reads back equal to what was written, and data that does not describe a canonical interval or set is rejected.",
  "for all values and all input documents",
  "The serde feature is not enabled in the tests.",
  ["src/wins/timevalue.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs"], [("serde derives", "src/wins/*.rs")])
out = sys.argv[1] if len(sys.argv) > 1 else "/verif/properties.jsonl"
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
