//! Graphs of a known number of instants and arbitrary bounds.
pub use crate::util::*;
pub use crate::rt::{any_graph, is_variant};
pub use chronologic::graph::*;
/// finite bounds are below this, so that no sum of three of them leaves the range of durations
pub const B: i128 = M / 16;
/// lower bounds of the duration from i to j
pub type Cells<const N: usize> = [[i128; N]; N];
pub fn cells<const N: usize>(g: &TimeGraph) -> Cells<N> {
    let mut m = [[0i128; N]; N];
    for i in 0..N { for j in 0..N { m[i][j] = bounds(&g.timespan(i as u32, j as u32)).0; } }
    m
}
/// a graph with N instants, at 0 from themselves, other bounds being infinite or of moderate size
pub fn loose<const N: usize>() -> (TimeGraph, Cells<N>) {
    let g: TimeGraph = any_graph(N as u32, (N * N) as u32);
    let m = cells::<N>(&g);
    for i in 0..N { for j in 0..N {
        if i == j { assume(m[i][j] == 0) } else { let x = m[i][j]; let free: bool = any(); if free { assume(x == -M) } else { assume(x > -B); assume(x < B) } }
    } }
    (g, m)
}
pub fn closed<const N: usize>(m: &Cells<N>, f: impl Fn(bool)) {
    for k in 0..N { for i in 0..N { for j in 0..N {
        if i != k && j != k && m[i][k] != -M && m[k][j] != -M { f(m[i][k] + m[k][j] <= m[i][j]) }
    } } }
}
/// a consistent graph whose bounds are all propagated
pub fn graph<const N: usize>() -> (TimeGraph, Cells<N>) {
    let (g, m) = loose::<N>();
    closed(&m, |c| assume(c));
    (g, m)
}
/// the same, the pair of two instants only being constrained, on both sides
pub fn paired<const N: usize>(p: usize, q: usize) -> (TimeGraph, Cells<N>) {
    let g: TimeGraph = any_graph(N as u32, (N * N) as u32);
    let m = cells::<N>(&g);
    for i in 0..N { for j in 0..N {
        if i == j { assume(m[i][i] == 0) }
        else if i == p && j == q || i == q && j == p { assume(m[i][j] > -B); assume(m[i][j] < B) }
        else { assume(m[i][j] == -M) }
    } }
    assume(m[p][q] + m[q][p] <= 0);
    (g, m)
}
/// times of the instants that satisfy every bound
pub fn solution<const N: usize>(m: &Cells<N>) -> [i128; N] {
    let mut t = [0i128; N];
    for i in 0..N { t[i] = any::<i128>(); assume(t[i] > -B); assume(t[i] < B) }
    for i in 0..N { for j in 0..N { if i != j && m[i][j] != -M { assume(t[j] - t[i] >= m[i][j]) } } }
    t
}
pub fn satisfies<const N: usize>(w: &Cells<N>, t: &[i128; N], f: impl Fn(bool)) {
    for i in 0..N { for j in 0..N { if w[i][j] != -M { f(t[j] - t[i] >= w[i][j]) } } }
}
/// the bounds [a, b] hold between the times of i and j
pub fn meet(t: i128, a: i128, b: i128) { if a != -M { assume(t >= a) } if b != M { assume(t <= b) } }
/// a non-empty interval with infinite or moderate bounds
pub fn span() -> (TimeSpan, i128, i128) {
    let d: TimeSpan = nonempty(); let (a, b) = bounds(&d);
    if a != -M { assume(a > -B); assume(a < B) }
    if b != M { assume(b > -B); assume(b < B) }
    (d, a, b)
}
pub fn same<const N: usize>(m: &Cells<N>, w: &Cells<N>) -> bool {
    let mut s = true;
    for x in 0..N { for y in 0..N { if m[x][y] != w[x][y] { s = false } } }
    s
}
/// bounds of a graph seen as a graph of more instants
pub fn widen<const N: usize, const P: usize>(m: &Cells<N>) -> Cells<P> {
    let mut w = [[-M; P]; P];
    for x in 0..P { for y in 0..P { if x == y { w[x][y] = 0 } else if x < N && y < N { w[x][y] = m[x][y] } } }
    w
}
