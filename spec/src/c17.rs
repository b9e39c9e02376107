use crate::graphs::*;
const L: &str = "no bound is loosened";
const K: &str = "the bounds of the constraint hold in the graph";
const T: &str = "every bound implied by two other bounds holds in the graph";
const S: &str = "durations that satisfy the former bounds and the constraint satisfy the new bounds";
const U: &str = "the result is Unchanged exactly when no bound was tightened";
const R: &str = "a constraint that some durations satisfy is accepted";
const Z: &str = "the graph holds exactly its former instants and those of the constraint";
const D: &str = "every instant is at duration 0 from itself";
/// N instants before, P after
fn accepted<const N: usize, const P: usize>(i: u32, j: u32) {
    let (mut g, m) = graph::<N>();
    let (d, a, b) = span();
    let r = g.propagate(((i, j), d));
    if let Ok(p) = r {
        check(g.size() == P as u32, Z);
        let m: Cells<P> = widen(&m);
        let w = cells::<P>(&g);
        for x in 0..P { check(w[x][x] == 0, D); for y in 0..P { check(m[x][y] <= w[x][y], L) } }
        check(w[i as usize][j as usize] >= a, K);
        check(w[j as usize][i as usize] >= -b, K);
        closed(&w, |c| check(c, T));
        check(is_variant(&p, "Unchanged") == same(&m, &w), U);
    }
}
/// every solution is kept
fn exact<const N: usize, const P: usize>(i: u32, j: u32) {
    let (mut g, m) = graph::<N>();
    let (d, a, b) = span();
    let t: [i128; P] = solution(&widen(&m));
    meet(t[j as usize] - t[i as usize], a, b);
    let r = g.propagate(((i, j), d));
    check(r.is_ok(), R);
    let w = cells::<P>(&g);
    satisfies(&w, &t, |c| check(c, S));
}
pub fn c17_two_01() { accepted::<2, 2>(0, 1) }
pub fn c17_two_10() { accepted::<2, 2>(1, 0) }
pub fn c17_three_00() { accepted::<3, 3>(0, 0) }
pub fn c17_three_11() { accepted::<3, 3>(1, 1) }
pub fn c17_three_22() { accepted::<3, 3>(2, 2) }
pub fn c17_three_01() { accepted::<3, 3>(0, 1) }
pub fn c17_three_10() { accepted::<3, 3>(1, 0) }
pub fn c17_three_02() { accepted::<3, 3>(0, 2) }
pub fn c17_three_20() { accepted::<3, 3>(2, 0) }
pub fn c17_three_12() { accepted::<3, 3>(1, 2) }
pub fn c17_three_21() { accepted::<3, 3>(2, 1) }
pub fn c17_new_00() { accepted::<0, 1>(0, 0) }
pub fn c17_new_01() { accepted::<0, 2>(0, 1) }
pub fn c17_new_20() { accepted::<1, 3>(2, 0) }
pub fn c17_new_02() { accepted::<2, 3>(0, 2) }
pub fn c17_new_21() { accepted::<2, 3>(2, 1) }
pub fn c17_new_22() { accepted::<2, 3>(2, 2) }
pub fn c17_new_23() { accepted::<2, 4>(2, 3) }
pub fn c17_new_13() { accepted::<2, 4>(1, 3) }
pub fn c17_kept_two_01() { exact::<2, 2>(0, 1) }
pub fn c17_kept_two_10() { exact::<2, 2>(1, 0) }
pub fn c17_kept_three_00() { exact::<3, 3>(0, 0) }
pub fn c17_kept_three_01() { exact::<3, 3>(0, 1) }
pub fn c17_kept_three_10() { exact::<3, 3>(1, 0) }
pub fn c17_kept_three_02() { exact::<3, 3>(0, 2) }
pub fn c17_kept_three_20() { exact::<3, 3>(2, 0) }
pub fn c17_kept_three_12() { exact::<3, 3>(1, 2) }
pub fn c17_kept_three_21() { exact::<3, 3>(2, 1) }
pub fn c17_kept_new_02() { exact::<2, 3>(0, 2) }
pub fn c17_kept_new_21() { exact::<2, 3>(2, 1) }
pub fn c17_kept_new_22() { exact::<2, 3>(2, 2) }
pub fn c17_kept_new_13() { exact::<2, 4>(1, 3) }
