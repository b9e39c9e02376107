//! Summaries of library functions whose implementation works on raw memory.
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> { let mut v = Vec::new(); let mut i = 0; while i < n { v.push(x.clone()); i += 1 } v }
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> { let mut v = Vec::new(); for x in it { v.push(x) } v }
pub fn box_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> { let mut v = Vec::new(); for x in it { v.push(x) } v.into_boxed_slice() }
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { for x in it { v.push(x) } }
pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) { for x in it { v.push(*x) } }
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { if n < v.len() { v.truncate(n) } else { while v.len() < n { v.push(x.clone()) } } }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    for x in old { if f(&x) { v.push(x) } }
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    for mut x in old { if f(&mut x) { v.push(x) } }
}
pub fn vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    for mut x in old {
        let same = match v.last_mut() { Some(l) => f(&mut x, l), None => false };
        if !same { v.push(x) }
    }
}
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let old = std::mem::replace(v, Vec::new());
    for x in old {
        let same = match v.last() { Some(l) => x == *l, None => false };
        if !same { v.push(x) }
    }
}
pub fn slice_fill<T: Clone>(s: &mut [T], x: T) { for y in s.iter_mut() { *y = x.clone() } }
pub fn slice_reverse<T>(s: &mut [T]) { let n = s.len(); let mut i = 0; while i < n / 2 { s.swap(i, n - 1 - i); i += 1 } }
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false } i += 1 }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true } } false }
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false } } true }
// Searches of a sorted sequence: the sequence is partitioned by the predicate (documented requirement of the library),
// so a walk finds the same place
pub fn slice_partition_point<T, F: FnMut(&T) -> bool>(s: &[T], mut f: F) -> usize { let mut i = 0; for x in s.iter() { if !f(x) { return i } i += 1 } i }
pub fn slice_binary_search_by<T, F: FnMut(&T) -> core::cmp::Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut i = 0;
    for x in s.iter() { match f(x) { core::cmp::Ordering::Less => {} core::cmp::Ordering::Equal => return Ok(i), core::cmp::Ordering::Greater => return Err(i) } i += 1 }
    Err(i)
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool { for y in s.iter() { if *y == *x { return true } } false }
// chrono's documented range of dates: years -262143 to 262142, a leap second only as the 60th of its minute
pub fn chrono_from_timestamp<T>(secs: i64, nanos: u32) -> Option<T> {
    let known = secs >= -8_334_601_228_800 && secs <= 8_210_266_876_799 && (nanos < 1_000_000_000 || nanos < 2_000_000_000 && secs.rem_euclid(60) == 59);
    if known { Some(crate::rt::mk_date(secs, nanos)) } else { None }
}
