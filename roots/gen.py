# generates src/lib.rs: one root function per public entry point of every transform
D="std::sync::Arc<dyn Dht<f64>>"
K={}
for n in (1,2,3,4,5,6,8,9,16): K[f"Butterfly{n}"]=""
K["DhtNaive"]="len: usize"; K["Radix4"]="len: usize"
K["MixedRadix"]=f"a: {D}, b: {D}"; K["SplitRadix"]=f"a: {D}, b: {D}"
for n in (2,3,4,5,6): K[f"MixedRadix{n}xn"]=f"a: {D}"
K["RadersAlgorithm"]=f"a: {D}"
o=["// generated by gen.py","#![allow(non_snake_case)]","use rustdht::Dht;","use rustfft::Length;"]
for k,a in K.items():
    args=", ".join(x.split(":")[0] for x in a.split(", ")) if a else ""
    T=f"rustdht::scalar::{k}<f64>"
    o.append(f"pub fn new_{k}({a}) -> {T} {{ {T.replace('<f64>','::<f64>')}::new({args}) }}")
    o.append(f"pub fn inplace_{k}(d: &{T}, b: &mut [f64], s: &mut [f64]) {{ d.process_with_scratch(b, s) }}")
    o.append(f"pub fn oop_{k}(d: &{T}, i: &mut [f64], o: &mut [f64], s: &mut [f64]) {{ d.process_outofplace_with_scratch(i, o, s) }}")
    o.append(f"pub fn conv_{k}(d: &{T}, b: &mut [f64]) {{ d.process(b) }}")
    o.append(f"pub fn len_{k}(d: &{T}) -> usize {{ d.len() }}")
    o.append(f"pub fn iscr_{k}(d: &{T}) -> usize {{ d.get_inplace_scratch_len() }}")
    o.append(f"pub fn oscr_{k}(d: &{T}) -> usize {{ d.get_outofplace_scratch_len() }}")
open("src/lib.rs","w").write("\n".join(o)+"\n"+open("helpers.rs").read())
