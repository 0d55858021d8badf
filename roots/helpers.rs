// Loops behind the consuming iterator adapters: the verifier runs these bodies, with the actual iterator and closure, in place of the library's.
pub fn vfh_fold(mut it: std::ops::Range<usize>, init: usize, mut f: impl FnMut(usize, usize) -> usize) -> usize { let mut a = init; while let Some(x) = it.next() { a = f(a, x); } a }
pub fn vfh_for_each(mut it: std::ops::Range<usize>, mut f: impl FnMut(usize)) { while let Some(x) = it.next() { f(x); } }
pub fn vfh_all(it: &mut std::ops::Range<usize>, mut f: impl FnMut(usize) -> bool) -> bool { while let Some(x) = it.next() { if !f(x) { return false } } true }
pub fn vfh_any(it: &mut std::ops::Range<usize>, mut f: impl FnMut(usize) -> bool) -> bool { while let Some(x) = it.next() { if f(x) { return true } } false }
pub fn vfh_find(it: &mut std::ops::Range<usize>, mut f: impl FnMut(&usize) -> bool) -> Option<usize> { while let Some(x) = it.next() { if f(&x) { return Some(x) } } None }
pub fn vfh_position(it: &mut std::ops::Range<usize>, mut f: impl FnMut(usize) -> bool) -> Option<usize> { let mut i = 0; while let Some(x) = it.next() { if f(x) { return Some(i) } i += 1; } None }
pub fn vfh_extend(v: &mut Vec<usize>, mut it: std::ops::Range<usize>) { while let Some(x) = it.next() { v.push(x); } }
pub fn vfh_use(n: usize) -> usize {
    vfh_for_each(0..n, |_| ());
    let (mut a, mut b, mut c, mut d) = (0..n, 0..n, 0..n, 0..n);
    if vfh_all(&mut a, |x| x > 0) && vfh_any(&mut b, |x| x > 0) && vfh_find(&mut c, |x| *x > 0).is_some() && vfh_position(&mut d, |x| x > 0).is_some() { return 1 }
    vfh_fold(0..n, 0, |a, x| a + x)
}
