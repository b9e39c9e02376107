//! Intrinsics of the abstract interpreter. These bodies are never executed.
#![allow(unused_variables)]
use chronologic::*;

/// an arbitrary value of the type (any value satisfying the crate's representation)
#[inline(never)] pub fn any<T>() -> T { loop {} }
/// an arbitrary value, without representation invariant
#[inline(never)] pub fn any_raw<T>() -> T { loop {} }
/// restricts the analysis to the states where the condition holds
#[inline(never)] pub fn assume(c: bool) { loop {} }
/// proof obligation
#[inline(never)] pub fn check(c: bool, what: &'static str) { loop {} }
/// the ticks of a time point
#[inline(never)] pub fn ticks<T>(t: &T) -> i128 { loop {} }
/// a time point from its ticks
#[inline(never)] pub fn mk<T>(t: i128) -> T { loop {} }
/// an interval from its bounds
#[inline(never)] pub fn mk_interval<I>(l: i128, u: i128) -> I { loop {} }
/// declares a window tracked inside the summaries of the sets created afterwards
#[inline(never)] pub fn ghost(l: i128, u: i128) { loop {} }
/// bounds of an interval, read from its representation
#[inline(never)] pub fn bounds<I>(i: &I) -> (i128, i128) { loop {} }
/// number of intervals in the representation of a set
#[inline(never)] pub fn raw_len<S>(s: &S) -> i128 { loop {} }
/// the representation is a sorted list of valid intervals separated by at least one tick
#[inline(never)] pub fn is_canon<S>(s: &S) -> bool { loop {} }
/// how the set meets tracked window `g`: 0 disjoint, 1 overlaps, 2 covers
#[inline(never)] pub fn hits<S>(s: &S, g: usize) -> u32 { loop {} }
/// join point of the analysis
#[inline(never)] pub fn cut() { loop {} }
/// panics are part of the specified behaviour from here on
#[inline(never)] pub fn allow_panic(c: bool) { loop {} }
/// the lists at hand have a known number of elements: loops are followed turn by turn (up to 100 turns)
#[inline(never)] pub fn unroll() { loop {} }
#[inline(never)] pub fn show<T>(t: T) { loop {} }
/// a graph of `n` instants stored in `cells` arbitrary cells; loops are followed turn by turn from here on
#[inline(never)] pub fn any_graph_any_size<G>() -> G { loop {} }
#[inline(never)] pub fn any_graph<G>(n: u32, cells: u32) -> G { loop {} }
/// the value is this variant of its type
#[inline(never)] pub fn is_variant<T>(v: &T, name: &'static str) -> bool { loop {} }
/// a scheduler on this graph whose instants have these sets
#[inline(never)] pub fn mk_scheduler<G, W, S>(g: G, sets: W) -> S { loop {} }
/// a date of chrono, from its seconds since 1970 and the nanoseconds above them
#[inline(never)] pub fn mk_date<T>(secs: i64, nanos: u32) -> T { loop {} }
