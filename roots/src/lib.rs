// generated by gen.py
#![allow(non_snake_case)]
use rustdht::Dht;
use rustfft::Length;
pub fn new_Butterfly1() -> rustdht::scalar::Butterfly1<f64> { rustdht::scalar::Butterfly1::<f64>::new() }
pub fn inplace_Butterfly1(d: &rustdht::scalar::Butterfly1<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly1(d: &rustdht::scalar::Butterfly1<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly1(d: &rustdht::scalar::Butterfly1<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly1(d: &rustdht::scalar::Butterfly1<f64>) -> usize { d.len() }
pub fn iscr_Butterfly1(d: &rustdht::scalar::Butterfly1<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly1(d: &rustdht::scalar::Butterfly1<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly2() -> rustdht::scalar::Butterfly2<f64> { rustdht::scalar::Butterfly2::<f64>::new() }
pub fn inplace_Butterfly2(d: &rustdht::scalar::Butterfly2<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly2(d: &rustdht::scalar::Butterfly2<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly2(d: &rustdht::scalar::Butterfly2<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly2(d: &rustdht::scalar::Butterfly2<f64>) -> usize { d.len() }
pub fn iscr_Butterfly2(d: &rustdht::scalar::Butterfly2<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly2(d: &rustdht::scalar::Butterfly2<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly3() -> rustdht::scalar::Butterfly3<f64> { rustdht::scalar::Butterfly3::<f64>::new() }
pub fn inplace_Butterfly3(d: &rustdht::scalar::Butterfly3<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly3(d: &rustdht::scalar::Butterfly3<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly3(d: &rustdht::scalar::Butterfly3<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly3(d: &rustdht::scalar::Butterfly3<f64>) -> usize { d.len() }
pub fn iscr_Butterfly3(d: &rustdht::scalar::Butterfly3<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly3(d: &rustdht::scalar::Butterfly3<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly4() -> rustdht::scalar::Butterfly4<f64> { rustdht::scalar::Butterfly4::<f64>::new() }
pub fn inplace_Butterfly4(d: &rustdht::scalar::Butterfly4<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly4(d: &rustdht::scalar::Butterfly4<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly4(d: &rustdht::scalar::Butterfly4<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly4(d: &rustdht::scalar::Butterfly4<f64>) -> usize { d.len() }
pub fn iscr_Butterfly4(d: &rustdht::scalar::Butterfly4<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly4(d: &rustdht::scalar::Butterfly4<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly5() -> rustdht::scalar::Butterfly5<f64> { rustdht::scalar::Butterfly5::<f64>::new() }
pub fn inplace_Butterfly5(d: &rustdht::scalar::Butterfly5<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly5(d: &rustdht::scalar::Butterfly5<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly5(d: &rustdht::scalar::Butterfly5<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly5(d: &rustdht::scalar::Butterfly5<f64>) -> usize { d.len() }
pub fn iscr_Butterfly5(d: &rustdht::scalar::Butterfly5<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly5(d: &rustdht::scalar::Butterfly5<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly6() -> rustdht::scalar::Butterfly6<f64> { rustdht::scalar::Butterfly6::<f64>::new() }
pub fn inplace_Butterfly6(d: &rustdht::scalar::Butterfly6<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly6(d: &rustdht::scalar::Butterfly6<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly6(d: &rustdht::scalar::Butterfly6<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly6(d: &rustdht::scalar::Butterfly6<f64>) -> usize { d.len() }
pub fn iscr_Butterfly6(d: &rustdht::scalar::Butterfly6<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly6(d: &rustdht::scalar::Butterfly6<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly8() -> rustdht::scalar::Butterfly8<f64> { rustdht::scalar::Butterfly8::<f64>::new() }
pub fn inplace_Butterfly8(d: &rustdht::scalar::Butterfly8<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly8(d: &rustdht::scalar::Butterfly8<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly8(d: &rustdht::scalar::Butterfly8<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly8(d: &rustdht::scalar::Butterfly8<f64>) -> usize { d.len() }
pub fn iscr_Butterfly8(d: &rustdht::scalar::Butterfly8<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly8(d: &rustdht::scalar::Butterfly8<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly9() -> rustdht::scalar::Butterfly9<f64> { rustdht::scalar::Butterfly9::<f64>::new() }
pub fn inplace_Butterfly9(d: &rustdht::scalar::Butterfly9<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly9(d: &rustdht::scalar::Butterfly9<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly9(d: &rustdht::scalar::Butterfly9<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly9(d: &rustdht::scalar::Butterfly9<f64>) -> usize { d.len() }
pub fn iscr_Butterfly9(d: &rustdht::scalar::Butterfly9<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly9(d: &rustdht::scalar::Butterfly9<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Butterfly16() -> rustdht::scalar::Butterfly16<f64> { rustdht::scalar::Butterfly16::<f64>::new() }
pub fn inplace_Butterfly16(d: &rustdht::scalar::Butterfly16<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Butterfly16(d: &rustdht::scalar::Butterfly16<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Butterfly16(d: &rustdht::scalar::Butterfly16<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Butterfly16(d: &rustdht::scalar::Butterfly16<f64>) -> usize { d.len() }
pub fn iscr_Butterfly16(d: &rustdht::scalar::Butterfly16<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Butterfly16(d: &rustdht::scalar::Butterfly16<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_DhtNaive(len: usize) -> rustdht::scalar::DhtNaive<f64> { rustdht::scalar::DhtNaive::<f64>::new(len) }
pub fn inplace_DhtNaive(d: &rustdht::scalar::DhtNaive<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_DhtNaive(d: &rustdht::scalar::DhtNaive<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_DhtNaive(d: &rustdht::scalar::DhtNaive<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_DhtNaive(d: &rustdht::scalar::DhtNaive<f64>) -> usize { d.len() }
pub fn iscr_DhtNaive(d: &rustdht::scalar::DhtNaive<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_DhtNaive(d: &rustdht::scalar::DhtNaive<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_Radix4(len: usize) -> rustdht::scalar::Radix4<f64> { rustdht::scalar::Radix4::<f64>::new(len) }
pub fn inplace_Radix4(d: &rustdht::scalar::Radix4<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_Radix4(d: &rustdht::scalar::Radix4<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_Radix4(d: &rustdht::scalar::Radix4<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_Radix4(d: &rustdht::scalar::Radix4<f64>) -> usize { d.len() }
pub fn iscr_Radix4(d: &rustdht::scalar::Radix4<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_Radix4(d: &rustdht::scalar::Radix4<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_MixedRadix(a: std::sync::Arc<dyn Dht<f64>>, b: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::MixedRadix<f64> { rustdht::scalar::MixedRadix::<f64>::new(a, b) }
pub fn inplace_MixedRadix(d: &rustdht::scalar::MixedRadix<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_MixedRadix(d: &rustdht::scalar::MixedRadix<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_MixedRadix(d: &rustdht::scalar::MixedRadix<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_MixedRadix(d: &rustdht::scalar::MixedRadix<f64>) -> usize { d.len() }
pub fn iscr_MixedRadix(d: &rustdht::scalar::MixedRadix<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_MixedRadix(d: &rustdht::scalar::MixedRadix<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_SplitRadix(a: std::sync::Arc<dyn Dht<f64>>, b: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::SplitRadix<f64> { rustdht::scalar::SplitRadix::<f64>::new(a, b) }
pub fn inplace_SplitRadix(d: &rustdht::scalar::SplitRadix<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_SplitRadix(d: &rustdht::scalar::SplitRadix<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_SplitRadix(d: &rustdht::scalar::SplitRadix<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_SplitRadix(d: &rustdht::scalar::SplitRadix<f64>) -> usize { d.len() }
pub fn iscr_SplitRadix(d: &rustdht::scalar::SplitRadix<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_SplitRadix(d: &rustdht::scalar::SplitRadix<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_MixedRadix2xn(a: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::MixedRadix2xn<f64> { rustdht::scalar::MixedRadix2xn::<f64>::new(a) }
pub fn inplace_MixedRadix2xn(d: &rustdht::scalar::MixedRadix2xn<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_MixedRadix2xn(d: &rustdht::scalar::MixedRadix2xn<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_MixedRadix2xn(d: &rustdht::scalar::MixedRadix2xn<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_MixedRadix2xn(d: &rustdht::scalar::MixedRadix2xn<f64>) -> usize { d.len() }
pub fn iscr_MixedRadix2xn(d: &rustdht::scalar::MixedRadix2xn<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_MixedRadix2xn(d: &rustdht::scalar::MixedRadix2xn<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_MixedRadix3xn(a: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::MixedRadix3xn<f64> { rustdht::scalar::MixedRadix3xn::<f64>::new(a) }
pub fn inplace_MixedRadix3xn(d: &rustdht::scalar::MixedRadix3xn<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_MixedRadix3xn(d: &rustdht::scalar::MixedRadix3xn<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_MixedRadix3xn(d: &rustdht::scalar::MixedRadix3xn<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_MixedRadix3xn(d: &rustdht::scalar::MixedRadix3xn<f64>) -> usize { d.len() }
pub fn iscr_MixedRadix3xn(d: &rustdht::scalar::MixedRadix3xn<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_MixedRadix3xn(d: &rustdht::scalar::MixedRadix3xn<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_MixedRadix4xn(a: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::MixedRadix4xn<f64> { rustdht::scalar::MixedRadix4xn::<f64>::new(a) }
pub fn inplace_MixedRadix4xn(d: &rustdht::scalar::MixedRadix4xn<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_MixedRadix4xn(d: &rustdht::scalar::MixedRadix4xn<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_MixedRadix4xn(d: &rustdht::scalar::MixedRadix4xn<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_MixedRadix4xn(d: &rustdht::scalar::MixedRadix4xn<f64>) -> usize { d.len() }
pub fn iscr_MixedRadix4xn(d: &rustdht::scalar::MixedRadix4xn<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_MixedRadix4xn(d: &rustdht::scalar::MixedRadix4xn<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_MixedRadix5xn(a: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::MixedRadix5xn<f64> { rustdht::scalar::MixedRadix5xn::<f64>::new(a) }
pub fn inplace_MixedRadix5xn(d: &rustdht::scalar::MixedRadix5xn<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_MixedRadix5xn(d: &rustdht::scalar::MixedRadix5xn<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_MixedRadix5xn(d: &rustdht::scalar::MixedRadix5xn<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_MixedRadix5xn(d: &rustdht::scalar::MixedRadix5xn<f64>) -> usize { d.len() }
pub fn iscr_MixedRadix5xn(d: &rustdht::scalar::MixedRadix5xn<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_MixedRadix5xn(d: &rustdht::scalar::MixedRadix5xn<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_MixedRadix6xn(a: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::MixedRadix6xn<f64> { rustdht::scalar::MixedRadix6xn::<f64>::new(a) }
pub fn inplace_MixedRadix6xn(d: &rustdht::scalar::MixedRadix6xn<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_MixedRadix6xn(d: &rustdht::scalar::MixedRadix6xn<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_MixedRadix6xn(d: &rustdht::scalar::MixedRadix6xn<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_MixedRadix6xn(d: &rustdht::scalar::MixedRadix6xn<f64>) -> usize { d.len() }
pub fn iscr_MixedRadix6xn(d: &rustdht::scalar::MixedRadix6xn<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_MixedRadix6xn(d: &rustdht::scalar::MixedRadix6xn<f64>) -> usize { d.get_outofplace_scratch_len() }
pub fn new_RadersAlgorithm(a: std::sync::Arc<dyn Dht<f64>>) -> rustdht::scalar::RadersAlgorithm<f64> { rustdht::scalar::RadersAlgorithm::<f64>::new(a) }
pub fn inplace_RadersAlgorithm(d: &rustdht::scalar::RadersAlgorithm<f64>, b: &mut [f64], s: &mut [f64]) { d.process_with_scratch(b, s) }
pub fn oop_RadersAlgorithm(d: &rustdht::scalar::RadersAlgorithm<f64>, i: &mut [f64], o: &mut [f64], s: &mut [f64]) { d.process_outofplace_with_scratch(i, o, s) }
pub fn conv_RadersAlgorithm(d: &rustdht::scalar::RadersAlgorithm<f64>, b: &mut [f64]) { d.process(b) }
pub fn len_RadersAlgorithm(d: &rustdht::scalar::RadersAlgorithm<f64>) -> usize { d.len() }
pub fn iscr_RadersAlgorithm(d: &rustdht::scalar::RadersAlgorithm<f64>) -> usize { d.get_inplace_scratch_len() }
pub fn oscr_RadersAlgorithm(d: &rustdht::scalar::RadersAlgorithm<f64>) -> usize { d.get_outofplace_scratch_len() }
// Loops behind the consuming iterator adapters: the verifier runs these bodies, with the actual iterator and closure, in place of the library's.
pub fn vfh_fold(mut it: std::ops::Range<usize>, init: usize, mut f: impl FnMut(usize, usize) -> usize) -> usize { let mut a = init; while let Some(x) = it.next() { a = f(a, x); } a }
pub fn vfh_for_each(mut it: std::ops::Range<usize>, mut f: impl FnMut(usize)) { while let Some(x) = it.next() { f(x); } }
pub fn vfh_all(it: &mut std::ops::Range<usize>, mut f: impl FnMut(usize) -> bool) -> bool { while let Some(x) = it.next() { if !f(x) { return false } } true }
pub fn vfh_any(it: &mut std::ops::Range<usize>, mut f: impl FnMut(usize) -> bool) -> bool { while let Some(x) = it.next() { if f(x) { return true } } false }
pub fn vfh_find(it: &mut std::ops::Range<usize>, mut f: impl FnMut(&usize) -> bool) -> Option<usize> { while let Some(x) = it.next() { if f(&x) { return Some(x) } } None }
pub fn vfh_position(it: &mut std::ops::Range<usize>, mut f: impl FnMut(usize) -> bool) -> Option<usize> { let mut i = 0; while let Some(x) = it.next() { if f(x) { return Some(i) } i += 1; } None }
pub fn vfh_extend(v: &mut Vec<usize>, mut it: std::ops::Range<usize>) { while let Some(x) = it.next() { v.push(x); } }
pub fn vfh_use(n: usize) -> usize {
    vfh_for_each(0..n, |_| ());
    let (mut a, mut b, mut c, mut d) = (0..n, 0..n, 0..n, 0..n);
    if vfh_all(&mut a, |x| x > 0) && vfh_any(&mut b, |x| x > 0) && vfh_find(&mut c, |x| *x > 0).is_some() && vfh_position(&mut d, |x| x > 0).is_some() { return 1 }
    vfh_fold(0..n, 0, |a, x| a + x)
}
