use crate::graphs::*;
const E: &str = "a rejected constraint leaves every bound as it was";
const Z: &str = "a rejected constraint leaves the size of the graph as it was";
const R: &str = "a rejected constraint is reported as a recovered inconsistency";
const I: &str = "a constraint that no duration satisfies is rejected";
const F: &str = "instants refused with their constraint remain unknown";
fn rejected<const N: usize>(i: u32, j: u32) {
    let (mut g, m) = graph::<N>();
    let (d, a, b) = span();
    let r = g.propagate(((i, j), d));
    if let Err(e) = r {
        check(is_variant(&e, "Recovered"), R);
        check(g.size() == N as u32, Z);
        let w = cells::<N>(&g);
        for x in 0..N { for y in 0..N { check(w[x][y] == m[x][y], E) } }
    } else {
        let (i, j) = (i as usize, j as usize);
        let (x, y) = if i == j { (0, 0) } else if i < N && j < N { (m[i][j], m[j][i]) } else { (-M, -M) };
        check(a == -M || y == -M || a <= -y, I);
        check(b == M || x == -M || x <= b, I);
    }
}
fn empty<const N: usize>(i: u32, j: u32) {
    let (mut g, m) = graph::<N>();
    let r = g.propagate(((i, j), TimeSpan::empty()));
    match r { Ok(_) => check(false, I), Err(e) => check(is_variant(&e, "Recovered"), R) }
    check(g.size() == N as u32, Z);
    let w = cells::<N>(&g);
    for x in 0..N { for y in 0..N { check(w[x][y] == m[x][y], E) } }
    let u = g.timespan(N as u32, 0);
    check(bounds(&u).0 == -M && bounds(&u).1 == M, F);
}
pub fn c18_two_01() { rejected::<2>(0, 1) }
pub fn c18_two_10() { rejected::<2>(1, 0) }
pub fn c18_three_00() { rejected::<3>(0, 0) }
pub fn c18_three_11() { rejected::<3>(1, 1) }
pub fn c18_three_22() { rejected::<3>(2, 2) }
pub fn c18_three_01() { rejected::<3>(0, 1) }
pub fn c18_three_10() { rejected::<3>(1, 0) }
pub fn c18_three_02() { rejected::<3>(0, 2) }
pub fn c18_three_20() { rejected::<3>(2, 0) }
pub fn c18_three_12() { rejected::<3>(1, 2) }
pub fn c18_three_21() { rejected::<3>(2, 1) }
pub fn c18_new_00() { rejected::<0>(0, 0) }
pub fn c18_new_22() { rejected::<2>(2, 2) }
pub fn c18_new_33() { rejected::<2>(3, 3) }
pub fn c18_new_02() { rejected::<2>(0, 2) }
pub fn c18_empty_00() { empty::<3>(0, 0) }
pub fn c18_empty_01() { empty::<3>(0, 1) }
pub fn c18_empty_21() { empty::<3>(2, 1) }
pub fn c18_empty_03() { empty::<3>(0, 3) }
pub fn c18_empty_33() { empty::<3>(3, 3) }
pub fn c18_empty_none() { empty::<0>(0, 1) }
