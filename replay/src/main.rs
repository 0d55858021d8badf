//! Replays cases against the real crate. `replay <property> <tier> <seed> <shard> <nshards> [--trace]`
//! enumerates the bounded case set of a property, `replay case "<spec>"` runs one case.
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::{num_complex::Complex, FftNum, FftPlanner, Length};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

trait El: FftNum {
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    const EPS: f64;
}
impl El for f64 {
    fn of(x: f64) -> f64 { x }
    fn to(self) -> f64 { self }
    const EPS: f64 = 2.3e-16;
}
impl El for f32 {
    fn of(x: f64) -> f32 { x as f32 }
    fn to(self) -> f64 { self as f64 }
    const EPS: f64 = 1.2e-7;
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

thread_local! {
    static TABLES: RefCell<HashMap<usize, Vec<f64>>> = RefCell::new(HashMap::new());
    static PLANNER: RefCell<FftPlanner<f64>> = RefCell::new(FftPlanner::new());
}
fn cas_table(n: usize) -> Vec<f64> {
    (0..n).map(|i| {
        // exact octant reduction, so every entry is correct to the last bits
        let i8 = 8 * i as u64; let n64 = n as u64;
        let oct = i8 / n64; let rem = i8 - oct * n64; // angle = (oct + rem/n) * pi/4
        let q = std::f64::consts::FRAC_PI_4;
        let (s, c) = match oct {
            0 => { let a = rem as f64 / n as f64 * q; (a.sin(), a.cos()) }
            1 => { let a = (n64 - rem) as f64 / n as f64 * q; (a.cos(), a.sin()) }
            2 => { let a = rem as f64 / n as f64 * q; (a.cos(), -a.sin()) }
            3 => { let a = (n64 - rem) as f64 / n as f64 * q; (a.sin(), -a.cos()) }
            4 => { let a = rem as f64 / n as f64 * q; (-a.sin(), -a.cos()) }
            5 => { let a = (n64 - rem) as f64 / n as f64 * q; (-a.cos(), -a.sin()) }
            6 => { let a = rem as f64 / n as f64 * q; (-a.cos(), a.sin()) }
            _ => { let a = (n64 - rem) as f64 / n as f64 * q; (-a.sin(), a.cos()) }
        };
        s + c
    }).collect()
}
/// the definition: X[k] = sum_j x[j] cas(2 pi j k / n)
fn oracle(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n <= 400 {
        let tab = TABLES.with(|t| t.borrow_mut().entry(n).or_insert_with(|| cas_table(n)).clone());
        (0..n).map(|k| {
            let mut idx = 0; let mut acc = 0.0;
            for j in 0..n { acc += x[j] * tab[idx]; idx += k; if idx >= n { idx -= n; } }
            acc
        }).collect()
    } else {
        let fft = PLANNER.with(|p| p.borrow_mut().plan_fft_forward(n));
        let mut b: Vec<Complex<f64>> = x.iter().map(|v| Complex { re: *v, im: 0.0 }).collect();
        fft.process(&mut b);
        b.iter().map(|c| c.re - c.im).collect()
    }
}

/// An inner transform that does what the Dht contract says and nothing more: it checks its own preconditions,
/// leaves garbage wherever the contract allows garbage.
struct Spec { n: usize, iscr: usize, oscr: usize }
impl Length for Spec { fn len(&self) -> usize { self.n } }
impl<T: El> Dht<T> for Spec {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        if buffer.len() < self.n || buffer.len() % self.n != 0 { panic!("inner contract: buffer length {} for inner length {}", buffer.len(), self.n) }
        if scratch.len() < self.iscr { panic!("inner contract: scratch {} < required {}", scratch.len(), self.iscr) }
        for ch in buffer.chunks_mut(self.n) {
            let r = oracle(&ch.iter().map(|v| v.to()).collect::<Vec<_>>());
            for (a, b) in ch.iter_mut().zip(r) { *a = T::of(b) }
        }
        for s in scratch.iter_mut() { *s = T::of(f64::NAN) }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        if input.len() < self.n || input.len() % self.n != 0 { panic!("inner contract: buffer length {} for inner length {}", input.len(), self.n) }
        if input.len() != output.len() { panic!("inner contract: output {} != input {}", output.len(), input.len()) }
        if scratch.len() < self.oscr { panic!("inner contract: scratch {} < required {}", scratch.len(), self.oscr) }
        for (i, o) in input.chunks_mut(self.n).zip(output.chunks_mut(self.n)) {
            let r = oracle(&i.iter().map(|v| v.to()).collect::<Vec<_>>());
            for (a, b) in o.iter_mut().zip(r) { *a = T::of(b) }
        }
        for s in scratch.iter_mut() { *s = T::of(f64::NAN) }
        for s in input.iter_mut() { *s = T::of(f64::NAN) }
    }
    fn get_inplace_scratch_len(&self) -> usize { self.iscr }
    fn get_outofplace_scratch_len(&self) -> usize { self.oscr }
}

#[derive(Clone, Debug)]
struct Case {
    op: &'static str, kind: String, a: usize, b: usize, inner: String, entry: String,
    chunks: usize, extra: usize, vec: String, seed: u64, ty: String,
    bl: usize, ol: usize, sl: usize,
}
impl Case {
    fn new(op: &'static str, kind: &str, a: usize, b: usize) -> Case {
        Case { op, kind: kind.into(), a, b, inner: "n".into(), entry: "inp".into(), chunks: 1, extra: 0, vec: "rand".into(), seed: 1, ty: "f64".into(), bl: 0, ol: 0, sl: 0 }
    }
    fn spec(&self) -> String {
        format!("op={} kind={} a={} b={} inner={} entry={} chunks={} extra={} vec={} seed={} ty={} bl={} ol={} sl={}",
            self.op, self.kind, self.a, self.b, self.inner, self.entry, self.chunks, self.extra, self.vec, self.seed, self.ty, self.bl, self.ol, self.sl)
    }
    fn parse(s: &str) -> Case {
        let m: HashMap<&str, &str> = s.split_whitespace().filter_map(|x| x.split_once('=')).collect();
        let g = |k: &str| m.get(k).copied().unwrap_or("");
        let n = |k: &str| g(k).parse::<u64>().unwrap_or(0) as usize;
        let ops = ["fn", "same", "panic", "mem", "new", "hist", "hungry"];
        Case { op: ops.iter().find(|o| **o == g("op")).expect("op"), kind: g("kind").into(), a: n("a"), b: n("b"), inner: g("inner").into(), entry: g("entry").into(),
            chunks: n("chunks"), extra: n("extra"), vec: g("vec").into(), seed: n("seed") as u64, ty: g("ty").into(), bl: n("bl"), ol: n("ol"), sl: n("sl") }
    }
}

fn inner<T: El>(code: &str, n: usize) -> Arc<dyn Dht<T>> {
    let sp = |i: usize, o: usize| -> Arc<dyn Dht<T>> { Arc::new(Spec { n, iscr: i, oscr: o }) };
    if let Some(x) = code.strip_prefix('x') { // explicit scratch needs: xI:O or xI:O/I2:O2 (the part after the slash is for the second inner transform)
        let (i, o) = x.split('/').next().unwrap().split_once(':').unwrap();
        return sp(i.parse().unwrap(), o.parse().unwrap());
    }
    match code {
        "s0" => sp(0, 0),
        "s1" => sp(n, 0),
        "s2" => sp(2 * n + 7, n + 3),
        "s3" => sp(0, 5 * n + 1),
        "s4" => sp(17 * n + 11, 0),
        "s5" => sp(1, 23 * n + 5),
        "s6" => sp(n + 1, n + 1),
        "s7" => sp(64 * n + 40, 64 * n + 41),
        "r" => { // a real composed transform where one exists
            if n.is_power_of_two() { Arc::new(Radix4::new(n)) }
            else if n % 4 == 0 && n > 4 { Arc::new(SplitRadix::new(inner("n", n / 4), inner("n", n / 2))) }
            else if n % 6 == 0 { Arc::new(MixedRadix6xn::new(inner("n", n / 6))) }
            else if n % 5 == 0 { Arc::new(MixedRadix5xn::new(inner("n", n / 5))) }
            else if n % 3 == 0 { Arc::new(MixedRadix3xn::new(inner("n", n / 3))) }
            else if n % 2 == 0 { Arc::new(MixedRadix2xn::new(inner("n", n / 2))) }
            else { Arc::new(DhtNaive::new(n)) }
        }
        _ => Arc::new(DhtNaive::new(n)),
    }
}
fn inner2<T: El>(code: &str, n: usize) -> Arc<dyn Dht<T>> {
    // second inner transform of a pair: a different scratch appetite
    if let Some((_, x)) = code.split_once('/') { return inner(&format!("x{}", x), n) }
    let c = match code { "s2" => "s4", "s3" => "s2", "s4" => "s3", "s5" => "s0", "s6" => "s5", x => x };
    inner(c, n)
}
fn build<T: El>(c: &Case) -> Arc<dyn Dht<T>> {
    match c.kind.as_str() {
        "Butterfly1" => Arc::new(Butterfly1::new()),
        "Butterfly2" => Arc::new(Butterfly2::new()),
        "Butterfly3" => Arc::new(Butterfly3::new()),
        "Butterfly4" => Arc::new(Butterfly4::new()),
        "Butterfly5" => Arc::new(Butterfly5::new()),
        "Butterfly6" => Arc::new(Butterfly6::new()),
        "Butterfly8" => Arc::new(Butterfly8::new()),
        "Butterfly9" => Arc::new(Butterfly9::new()),
        "Butterfly16" => Arc::new(Butterfly16::new()),
        "DhtNaive" => Arc::new(DhtNaive::new(c.a)),
        "Radix4" => Arc::new(Radix4::new(c.a)),
        "MixedRadix" => Arc::new(MixedRadix::new(inner(&c.inner, c.a), inner2(&c.inner, c.b))),
        "SplitRadix" => Arc::new(SplitRadix::new(inner(&c.inner, c.a), inner2(&c.inner, c.b))),
        "MixedRadix2xn" => Arc::new(MixedRadix2xn::new(inner(&c.inner, c.a))),
        "MixedRadix3xn" => Arc::new(MixedRadix3xn::new(inner(&c.inner, c.a))),
        "MixedRadix4xn" => Arc::new(MixedRadix4xn::new(inner(&c.inner, c.a))),
        "MixedRadix5xn" => Arc::new(MixedRadix5xn::new(inner(&c.inner, c.a))),
        "MixedRadix6xn" => Arc::new(MixedRadix6xn::new(inner(&c.inner, c.a))),
        "RadersAlgorithm" => Arc::new(RadersAlgorithm::new(inner(&c.inner, c.a))),
        k => panic!("unknown kind {}", k),
    }
}
fn promised(c: &Case) -> usize {
    let k = c.kind.as_str();
    if let Some(n) = k.strip_prefix("Butterfly") { return n.parse().unwrap() }
    match k {
        "DhtNaive" | "Radix4" => c.a,
        "MixedRadix" => c.a * c.b,
        "SplitRadix" => 4 * c.a,
        "RadersAlgorithm" => c.a + 1,
        _ => k["MixedRadix".len()..k.len() - 2].parse::<usize>().unwrap() * c.a,
    }
}
fn is_prime(n: usize) -> bool { n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0) }
fn constructible(c: &Case) -> bool {
    match c.kind.as_str() {
        "Radix4" => c.a.is_power_of_two(),
        "SplitRadix" => c.b == 2 * c.a,
        "RadersAlgorithm" => is_prime(c.a + 1),
        _ => true,
    }
}
fn data(n: usize, chunks: usize, kind: &str, seed: u64) -> Vec<f64> {
    let mut r = Rng(seed.wrapping_mul(7919).wrapping_add(n as u64 * 31 + chunks as u64));
    let m = n * chunks;
    if let Some(j) = kind.strip_prefix("e") {
        let j: usize = j.parse().unwrap();
        return (0..m).map(|i| if i % n == j % n { 1.0 } else { 0.0 }).collect();
    }
    match kind {
        "ones" => vec![1.0; m],
        "neg" => (0..m).map(|_| -r.unit().abs() - 0.01).collect(),
        "sparse" => (0..m).map(|_| if r.below(3) == 0 { r.unit() } else { 0.0 }).collect(),
        "big" => (0..m).map(|_| r.unit() * 1e6).collect(),
        _ => (0..m).map(|_| r.unit()).collect(),
    }
}
fn call<T: El>(d: &dyn Dht<T>, entry: &str, x: &[f64], extra: usize, dirty: bool) -> Vec<T> {
    let fill = if dirty { f64::NAN } else { 0.0 };
    let mut b: Vec<T> = x.iter().map(|v| T::of(*v)).collect();
    match entry {
        "inp" => { let mut s = vec![T::of(fill); d.get_inplace_scratch_len() + extra]; d.process_with_scratch(&mut b, &mut s); b }
        "conv" => { d.process(&mut b); b }
        _ => {
            let mut o = vec![T::of(fill); b.len()];
            let mut s = vec![T::of(fill); d.get_outofplace_scratch_len() + extra];
            d.process_outofplace_with_scratch(&mut b, &mut o, &mut s); o
        }
    }
}
fn tol<T: El>(n: usize, x: &[f64]) -> f64 {
    let norm = x.iter().map(|v| v * v).sum::<f64>().sqrt();
    T::EPS * (norm + 1e-300) * (16.0 * (n as f64).sqrt() + 60.0)
}
fn close<T: El>(n: usize, x: &[f64], y: &[T], r: &[f64]) -> Result<(), String> {
    let t = tol::<T>(n, x);
    for (k, (a, b)) in y.iter().zip(r).enumerate() {
        let e = (a.to() - b).abs();
        if !(e <= t) { return Err(format!("output[{}] = {:e}, expected {:e} (error {:e}, tolerance {:e})", k, a.to(), b, e, t)) }
    }
    Ok(())
}
fn xs<T: El>(c: &Case, n: usize, chunks: usize) -> Vec<f64> {
    data(n, chunks, &c.vec, c.seed).iter().map(|v| T::of(*v).to()).collect()
}
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }
}
fn run<T: El>(c: &Case) -> Result<(), String> {
    if c.op == "new" {
        let r = catch_unwind(AssertUnwindSafe(|| build::<T>(c).len()));
        return match (r, constructible(c)) {
            (Ok(l), true) if l == promised(c) => Ok(()),
            (Ok(l), true) => Err(format!("len() is {}, promised {}", l, promised(c))),
            (Ok(l), false) => Err(format!("constructor accepted invalid parameters (len {})", l)),
            (Err(_), false) => Ok(()),
            (Err(e), true) => Err(format!("constructor panicked on valid parameters: {}", msg(e))),
        };
    }
    let d = match catch_unwind(AssertUnwindSafe(|| build::<T>(c))) { Ok(d) => d, Err(e) => {
        return if constructible(c) { Err(format!("constructor panicked: {}", msg(e))) } else { Ok(()) } } };
    let n = promised(c);
    if d.len() != n { return Err(format!("len() is {}, promised {}", d.len(), n)) }
    match c.op {
        "fn" => {
            let x = xs::<T>(c, n, c.chunks);
            let y = catch_unwind(AssertUnwindSafe(|| call::<T>(&*d, &c.entry, &x, c.extra, true))).map_err(|e| format!("panicked: {}", msg(e)))?;
            for (ci, ch) in x.chunks(n).enumerate() {
                close::<T>(n, ch, &y[ci * n..(ci + 1) * n], &oracle(ch)).map_err(|e| format!("chunk {}: {}", ci, e))?;
            }
            Ok(())
        }
        "same" => { // a batch, on dirty oversized scratch, against single clean calls of the same transform
            let x = xs::<T>(c, n, c.chunks);
            let y = catch_unwind(AssertUnwindSafe(|| call::<T>(&*d, &c.entry, &x, c.extra, true))).map_err(|e| format!("panicked: {}", msg(e)))?;
            for (ci, ch) in x.chunks(n).enumerate() {
                let one = catch_unwind(AssertUnwindSafe(|| call::<T>(&*d, if c.entry == "conv" { "inp" } else { &c.entry }, ch, 0, false))).map_err(|e| format!("single call panicked: {}", msg(e)))?;
                close::<T>(n, ch, &y[ci * n..(ci + 1) * n], &one.iter().map(|v| v.to()).collect::<Vec<_>>()).map_err(|e| format!("chunk {} of {}: {}", ci, c.chunks, e))?;
            }
            Ok(())
        }
        "hungry" => { // the same transform over modest and over scratch-hungry inner transforms must agree, and never trip an inner contract
            let mut c0 = c.clone(); c0.inner = "s0".into();
            let d0 = build::<T>(&c0);
            let x = xs::<T>(c, n, c.chunks);
            let y = catch_unwind(AssertUnwindSafe(|| call::<T>(&*d, &c.entry, &x, c.extra, true))).map_err(|e| format!("panicked with sufficient scratch: {}", msg(e)))?;
            let mut z = vec![];
            for ch in x.chunks(n) { z.extend(catch_unwind(AssertUnwindSafe(|| call::<T>(&*d0, &c.entry, ch, 0, false))).map_err(|e| format!("panicked with sufficient scratch: {}", msg(e)))?) }
            for ci in 0..c.chunks { let s = ci * n..(ci + 1) * n;
                close::<T>(n, &x[s.clone()], &y[s.clone()], &z[s].iter().map(|v| v.to()).collect::<Vec<_>>()).map_err(|e| format!("result depends on scratch contents or size: chunk {}: {}", ci, e))?; }
            Ok(())
        }
        "panic" => {
            let req = if c.entry == "oop" { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() };
            if c.sl + req < 1_000_000 { return Ok(()) }
            let sl = scratch_len(c.sl, req);
            let oop = c.entry == "oop"; let conv = c.entry == "conv";
            let bad = c.bl < n || c.bl % n != 0 || (oop && c.ol != c.bl) || (!conv && sl < req);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut b = vec![T::of(0.5); c.bl]; let mut o = vec![T::of(0.25); c.ol]; let mut s = vec![T::of(0.125); if conv { 0 } else { sl }];
                if oop { d.process_outofplace_with_scratch(&mut b, &mut o, &mut s) } else if conv { d.process(&mut b) } else { d.process_with_scratch(&mut b, &mut s) }
            }));
            match (r, bad) {
                (Ok(_), true) => Err(format!("accepted an ill-sized call: n={} buffer={} output={} scratch={} required={}", n, c.bl, c.ol, sl, req)),
                (Err(e), false) => Err(format!("panicked on a well-sized call: n={} buffer={} output={} scratch={} required={}: {}", n, c.bl, c.ol, sl, req, msg(e))),
                _ => Ok(()),
            }
        }
        "mem" => {
            let req = if c.entry == "oop" { d.get_outofplace_scratch_len() } else { d.get_inplace_scratch_len() };
            if c.sl + req < 1_000_000 { return Ok(()) }
            let sl = scratch_len(c.sl, req);
            let oop = c.entry == "oop";
            // exact allocations (for the address sanitizer), then guarded windows
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let mut b = vec![T::of(0.5); c.bl].into_boxed_slice(); let mut o = vec![T::of(0.25); c.ol].into_boxed_slice(); let mut s = vec![T::of(0.125); sl].into_boxed_slice();
                if oop { d.process_outofplace_with_scratch(&mut b, &mut o, &mut s) } else { d.process_with_scratch(&mut b, &mut s) }
            }));
            let g = 3 * n + 40; let mark = T::of(1234.5);
            let mut b = vec![mark; c.bl + 2 * g]; let mut o = vec![mark; c.ol + 2 * g]; let mut s = vec![mark; sl + 2 * g];
            let x = xs::<T>(c, n, c.bl / n + 2);
            for i in 0..c.bl { b[g + i] = T::of(x[i]) }
            let ok = catch_unwind(AssertUnwindSafe(|| {
                if oop { d.process_outofplace_with_scratch(&mut b[g..g + c.bl], &mut o[g..g + c.ol], &mut s[g..g + sl]) } else { d.process_with_scratch(&mut b[g..g + c.bl], &mut s[g..g + sl]) }
            })).is_ok();
            for (nm, v, l) in [("buffer", &b, c.bl), ("output", &o, c.ol), ("scratch", &s, sl)] {
                for i in 0..v.len() { if (i < g || i >= g + l) && v[i] != mark { return Err(format!("wrote outside the {} slice at relative index {} (slice length {})", nm, i as i64 - g as i64, l)) } }
            }
            if ok { // surroundings poisoned: nothing outside the slices may be read
                let nan = T::of(f64::NAN);
                let y: Vec<T> = if oop { o[g..g + c.ol].to_vec() } else { b[g..g + c.bl].to_vec() };
                let mut b = vec![nan; c.bl + 2 * g]; let mut o = vec![nan; c.ol + 2 * g]; let mut s = vec![nan; sl + 2 * g];
                for i in 0..c.bl { b[g + i] = T::of(x[i]) }
                for i in 0..c.ol { o[g + i] = T::of(0.25) }
                for i in 0..sl { s[g + i] = T::of(0.125) }
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    if oop { d.process_outofplace_with_scratch(&mut b[g..g + c.bl], &mut o[g..g + c.ol], &mut s[g..g + sl]) } else { d.process_with_scratch(&mut b[g..g + c.bl], &mut s[g..g + sl]) }
                }));
                let z: Vec<T> = if oop { o[g..g + c.ol].to_vec() } else { b[g..g + c.bl].to_vec() };
                for i in 0..z.len() { if z[i].to().is_nan() && !y[i].to().is_nan() { return Err(format!("result at {} depends on memory outside the slices", i)) } }
            }
            Ok(())
        }
        "hist" => {
            let d: Arc<dyn Dht<T>> = d;
            let x = xs::<T>(c, n, 1); let mut c2 = c.clone(); c2.seed += 77; let w = xs::<T>(&c2, n, 2);
            let bits = |v: Vec<T>| v.iter().map(|a| a.to().to_bits()).collect::<Vec<_>>();
            let go = |e: &str, v: &[f64], k: usize| catch_unwind(AssertUnwindSafe(|| bits(call::<T>(&*d, e, v, k, false)))).map_err(|e| format!("panicked: {}", msg(e)));
            let first = go("inp", &x, 0)?; let firsto = go("oop", &x, 0)?;
            for i in 0..20 {
                go(if i % 2 == 0 { "oop" } else { "inp" }, &w, i)?;
                if i % 5 == 4 { let z = vec![T::of(0.5); n + 1]; let _ = catch_unwind(AssertUnwindSafe(|| { let mut z = z; d.process(&mut z) })); }
                if go("inp", &x, 0)? != first { return Err(format!("in-place result changed on repetition {}", i)) }
                if go("oop", &x, 0)? != firsto { return Err(format!("out-of-place result changed on repetition {}", i)) }
                if go("conv", &x, 0)? != first { return Err(format!("convenience result differs on repetition {}", i)) }
            }
            // a fresh instance after this history
            let e: Arc<dyn Dht<T>> = build::<T>(c);
            if bits(call::<T>(&*e, "inp", &x, 0, false)) != first { return Err("a fresh instance gives another result".into()) }
            let bad = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4).map(|t| { let (d, x, w, first, firsto) = (&d, &x, &w, &first, &firsto); s.spawn(move || {
                    for i in 0..40 {
                        let _ = call::<T>(&**d, if (i + t) % 2 == 0 { "oop" } else { "inp" }, w, 0, false);
                        let a = call::<T>(&**d, "inp", x, 0, false).iter().map(|a| a.to().to_bits()).collect::<Vec<_>>();
                        let b = call::<T>(&**d, "oop", x, 0, false).iter().map(|a| a.to().to_bits()).collect::<Vec<_>>();
                        if &a != first || &b != firsto { return true }
                    } false }) }).collect();
                hs.into_iter().any(|h| h.join().unwrap_or(true))
            });
            if bad { return Err("a concurrent call gives another result".into()) }
            Ok(())
        }
        o => Err(format!("op {}", o)),
    }
}
/// scratch lengths are stored relative to the requirement, +1000000, or absolute, +1000000000
fn scratch_len(sl: usize, req: usize) -> usize { if sl >= 1_000_000_000 { sl - 1_000_000_000 } else { sl + req - 1_000_000 } }
fn run_case(c: &Case) -> Result<(), String> { if c.ty == "f32" { run::<f32>(c) } else { run::<f64>(c) } }

const BF: [usize; 9] = [1, 2, 3, 4, 5, 6, 8, 9, 16];
fn primes(lim: usize) -> Vec<usize> { (2..lim).filter(|p| is_prime(*p)).collect() }
fn vecs(n: usize) -> Vec<String> {
    let mut v: Vec<String> = ["rand", "neg", "sparse", "big", "ones"].iter().map(|s| s.to_string()).collect();
    for j in [0, 1, n / 4, n / 3, n / 2, n.wrapping_sub(1), n / 2 + 1] { let s = format!("e{}", j); if j < n && !v.contains(&s) { v.push(s) } }
    v
}
/// configurations of each kind: (kind, a, b)
fn configs(kind: &str, deep: bool) -> Vec<(String, usize, usize)> {
    let k = kind.to_string();
    let mut v = vec![];
    match kind {
        "Butterfly" => for n in BF { v.push((format!("Butterfly{}", n), 0, 0)) },
        "DhtNaive" => { for n in 1..if deep { 400 } else { 130 } { v.push((k.clone(), n, 0)) } for n in [255, 256, 257, 360, 500, 512, 1000, 1009, 1024, 2048, 2310] { v.push((k.clone(), n, 0)) } }
        "Radix4" => for m in 0..if deep { 21 } else { 17 } { v.push((k.clone(), 1 << m, 0)) },
        "MixedRadix" => {
            let l = if deep { 34 } else { 20 };
            for a in 1..l { for b in 1..l { v.push((k.clone(), a, b)) } }
            for (a, b) in [(1, 100), (100, 1), (2, 77), (77, 2), (3, 64), (64, 3), (4, 81), (81, 4), (37, 40), (40, 37), (64, 64), (63, 65), (31, 33), (100, 101), (25, 120), (128, 9), (9, 128), (33, 32), (50, 50), (51, 51), (5, 200), (200, 5), (17, 256), (256, 17), (300, 7), (7, 300), (1000, 3), (3, 1000), (48, 50), (128, 128), (255, 129)] { v.push((k.clone(), a, b)) }
        }
        "MixedRadixN" => for r in 2..7 {
            for a in 1..if deep { 300 } else { 90 } { v.push((format!("MixedRadix{}xn", r), a, 0)) }
            for a in [100, 127, 128, 129, 200, 255, 256, 257, 333, 500, 512, 513, 1000, 1024, 1025, 4096, 5001] { v.push((format!("MixedRadix{}xn", r), a, 0)) }
        },
        "SplitRadix" => { for a in 1..if deep { 400 } else { 120 } { v.push((k.clone(), a, 2 * a)) } for a in [127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, 1025, 4096, 5001] { v.push((k.clone(), a, 2 * a)) } }
        "Raders" => for p in primes(if deep { 3000 } else { 500 }).into_iter().chain([641, 1009, 1013, 1021, 1087, 2003, 2311, 2520 + 1, 3571, 4409, 5881, 7919, 9241, 10007, 16381, 20011, 36721, 65537, 65539, 71761].into_iter().filter(|p| is_prime(*p))) { v.push(("RadersAlgorithm".into(), p - 1, 0)) },
        _ => {}
    }
    v
}
/// a few dozen configurations over all kinds, for the properties that quantify over kinds
fn sample(deep: bool) -> Vec<(String, usize, usize)> {
    let mut v = configs("Butterfly", false);
    let m = if deep { 3 } else { 1 };
    for n in (1..=20 * m).chain([33, 64, 100]) { v.push(("DhtNaive".into(), n, 0)) }
    for e in 0..8 + m { v.push(("Radix4".into(), 1 << e, 0)) }
    for a in 1..8 * m { for b in 1..8 * m { v.push(("MixedRadix".into(), a, b)) } }
    for (a, b) in [(12, 17), (17, 12), (16, 16), (1, 30), (30, 1), (9, 20), (21, 10)] { v.push(("MixedRadix".into(), a, b)) }
    for r in 2..7 { for a in (1..=12 * m).chain([17, 32, 33, 50]) { v.push((format!("MixedRadix{}xn", r), a, 0)) } }
    for a in (1..=14 * m).chain([17, 32, 33, 50]) { v.push(("SplitRadix".into(), a, 2 * a)) }
    for p in primes(40 * m).into_iter().chain([61, 101, 257]) { v.push(("RadersAlgorithm".into(), p - 1, 0)) }
    v
}
fn composed(kind: &str) -> bool { !(kind.starts_with("Butterfly") || kind == "DhtNaive" || kind == "Radix4") }
fn family(prop: &str) -> &'static str {
    match prop { "C01" => "Butterfly", "C02" => "DhtNaive", "C03" => "MixedRadix", "C04" => "MixedRadixN", "C05" => "Radix4", "C06" => "SplitRadix", _ => "Raders" }
}
fn cases(prop: &str, deep: bool, seed: u64) -> Vec<Case> {
    let mut out = vec![];
    let mut r = Rng(seed);
    let mk = |op: &'static str, c: &(String, usize, usize)| { let mut x = Case::new(op, &c.0, c.1, c.2); x.seed = seed; x };
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => {
            for c in configs(family(prop), deep) {
                let base = mk("fn", &c); let n = promised(&base);
                for entry in ["inp", "oop"] {
                    let vs = if prop == "C01" || n <= 40 { vecs(n) } else { vec!["rand".into(), "sparse".into(), format!("e{}", r.below(n))] };
                    for v in vs { let mut x = base.clone(); x.entry = entry.into(); x.vec = v; x.inner = if composed(&c.0) && (n > 3000 || r.below(2) == 0) { "s1".into() } else { "n".into() };
                        if prop != "C01" && prop != "C02" && x.inner == "n" && r.below(4) == 0 { x.inner = "r".into() }
                        out.push(x) }
                    let mut x = base.clone(); x.entry = entry.into(); x.ty = "f32".into(); x.inner = "s2".into(); if n <= 2000 { out.push(x) }
                    if prop == "C01" { for j in 0..n { let mut x = base.clone(); x.entry = entry.into(); x.vec = format!("e{}", j); out.push(x) } for s in 0..20 { let mut x = base.clone(); x.entry = entry.into(); x.seed = seed + s; out.push(x) } }
                }
            }
            if prop == "C07" { for a in 1..if deep { 3000 } else { 700 } { out.push(mk("new", &("RadersAlgorithm".to_string(), a, 0))) } for a in [1000, 1728, 2820, 2464, 1104, 560, 4095, 8191, 65535, 65536, 99, 41040] { out.push(mk("new", &("RadersAlgorithm".to_string(), a, 0))) }
                for p in [999983usize, 65537, 104729, 746497, 760321] { if is_prime(p) { let mut x = mk("fn", &("RadersAlgorithm".to_string(), p - 1, 0)); x.inner = "s1".into(); x.entry = "inp".into(); out.push(x); } } }
        }
        "C08" => for c in sample(deep) {
            let base = mk("same", &c);
            for (i, chunks) in [1usize, 2, 3, 4, 5, 7, 16, 33].into_iter().enumerate() {
                for entry in ["inp", "oop", "conv"] {
                    if promised(&base) * chunks > 6000 { continue }
                    let mut x = base.clone(); x.entry = entry.into(); x.chunks = chunks; x.extra = [0, 1, 5][i % 3]; x.inner = ["s1", "n", "s2"][r.below(3)].into(); out.push(x);
                }
            }
            let mut x = base.clone(); x.chunks = 1 + 20000 / promised(&base).max(1); if x.chunks > 300 { x.chunks = 300 } x.entry = ["inp", "oop"][r.below(2)].into(); out.push(x);
        },
        "C09" | "C10" => {
            let op = if prop == "C09" { "panic" } else { "mem" };
            for c in sample(deep) {
                let base = mk(op, &c); let n = promised(&base);
                let z = 1_000_000usize;
                let bls: Vec<usize> = { let mut v = vec![0, 1, 2, 3, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 5 * n - 1, 5 * n, 16 * n, n / 2, n + n / 2]; v.sort(); v.dedup(); v };
                for &bl in &bls {
                    for sl in [z, z - 1, z + 1, z + n, z / 1_000_000, z - 2, z - n] {
                        for entry in ["inp", "conv", "oop"] {
                            if entry == "conv" && (sl != z || op == "mem") { continue }
                            let ols: Vec<usize> = if entry == "oop" { let mut v = vec![bl, bl + 1, bl + n, bl.saturating_sub(1), bl.saturating_sub(n), 0, n]; v.sort(); v.dedup(); v } else { vec![0] };
                            for ol in ols {
                                if entry == "oop" && ol != bl && r.below(3) > 0 { continue }
                                if n > 40 && r.below(4) > 0 && !(bl == n && ol == bl) { continue }
                                let mut x = base.clone(); x.entry = entry.into(); x.bl = bl; x.ol = ol; x.sl = sl; x.inner = ["s1", "n", "s2", "s0", "s5"][r.below(5)].into(); out.push(x);
                            }
                        }
                    }
                }
            }
            if prop == "C09" {
                for f in ["Butterfly", "DhtNaive", "MixedRadix", "MixedRadixN", "SplitRadix", "Raders", "Radix4"] { for c in configs(f, false) { let base = mk("panic", &c); let n = promised(&base); if n > 3000 { continue }
                    for entry in ["inp", "oop"] { let mut x = base.clone(); x.entry = entry.into(); x.bl = 2 * n; x.ol = 2 * n; x.sl = 1_000_000; x.inner = "s0".into(); out.push(x) } } }
            } else {
                for f in ["MixedRadix", "MixedRadixN", "SplitRadix", "Radix4"] { for c in configs(f, false) { let base = mk("mem", &c); let n = promised(&base); if n > 1100 { continue }
                    for entry in ["inp", "oop"] { let mut x = base.clone(); x.entry = entry.into(); x.bl = 2 * n; x.ol = 2 * n; x.sl = 1_000_000; x.inner = "s0".into(); out.push(x) } } }
            }
        }
        "C11" => for c in sample(deep) {
            let base = mk(if composed(&c.0) { "hungry" } else { "same" }, &c);
            for inn in ["s1", "s2", "s3", "s4", "s5", "s6", "s7"] {
                for entry in ["inp", "oop", "conv"] { for (chunks, extra) in [(1, 0), (2, 0), (1, 7), (3, 1000)] {
                    let mut x = base.clone(); x.inner = inn.into(); x.entry = entry.into(); x.chunks = chunks; x.extra = extra; out.push(x);
                } }
                if !composed(&c.0) { break }
            }
        },
        "C12" => {
            for c in configs("Butterfly", deep) { out.push(mk("new", &c)) }
            for n in 0..if deep { 70000 } else { 5000 } { if n > 0 && n < 1500 { out.push(mk("new", &("DhtNaive".into(), n, 0))) } if n > 0 { out.push(mk("new", &("Radix4".into(), n, 0))) } }
            for e in 3..22 { for d in [-3i64, -1, 0, 1, 2] { out.push(mk("new", &("Radix4".into(), ((1i64 << e) + d) as usize, 0))) } }
            for e in 3..20 { out.push(mk("new", &("Radix4".into(), 3 << e, 0))); out.push(mk("new", &("Radix4".into(), 5 << e, 0))) }
            for a in 1..60 { for b in 1..60 { out.push(mk("new", &("MixedRadix".into(), a, b))) } }
            for a in 1..80 { for b in 1..170 { out.push(mk("new", &("SplitRadix".into(), a, b))) } }
            for r in 2..7 { for a in 1..400 { out.push(mk("new", &(format!("MixedRadix{}xn", r), a, 0))) } }
            for a in 1..900 { out.push(mk("new", &("RadersAlgorithm".into(), a, 0))) }
            for x in out.iter_mut() { if x.a.max(x.b) > 40 { x.inner = "s0".into() } }
        }
        "C13" => for f in ["Butterfly", "DhtNaive", "MixedRadix", "MixedRadixN", "SplitRadix", "Raders", "Radix4"] {
            for c in configs(f, deep) { let base = mk("fn", &c); let n = promised(&base); if n > 70000 { continue }
                for entry in ["inp", "oop"] { if f == "MixedRadix" && r.below(3) > 0 { continue } let mut x = base.clone(); x.entry = entry.into(); x.inner = "s0".into(); x.vec = if n < 64 && r.below(2) == 0 { format!("e{}", n - 1) } else { "rand".into() }; out.push(x) } }
        },
        "C14" => { for c in sample(false) { let mut x = mk("hist", &c); x.inner = ["n", "r"][r.below(2)].into(); out.push(x) }
            for (k, a, b) in [("DhtNaive", 200, 0), ("Radix4", 1024, 0), ("MixedRadix", 30, 33), ("SplitRadix", 128, 256), ("MixedRadix6xn", 100, 0), ("RadersAlgorithm", 256, 0)] { let mut x = mk("hist", &(k.to_string(), a, b)); x.inner = "n".into(); out.push(x) } }
        p => { eprintln!("no cases for {}", p); std::process::exit(3) }
    }
    out
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let av: Vec<String> = std::env::args().collect();
    if av[1] == "case" {
        let c = Case::parse(&av[2..].join(" "));
        match run_case(&c) { Ok(()) => println!("PASS {}", c.spec()), Err(e) => { println!("FAIL {} :: {}", c.spec(), e); std::process::exit(1) } }
        return;
    }
    let deep = av[2] == "thorough";
    let (seed, shard, nsh): (u64, usize, usize) = (av[3].parse().unwrap(), av[4].parse().unwrap(), av[5].parse().unwrap());
    let trace = av.iter().any(|a| a == "--trace");
    let all = cases(&av[1], deep, seed);
    let mut done = 0; let mut fails = 0;
    for (_, c) in all.iter().enumerate().filter(|(i, _)| i % nsh == shard) {
        if trace { println!("TRY {}", c.spec()); use std::io::Write; let _ = std::io::stdout().flush(); }
        done += 1;
        if let Err(e) = run_case(c) { println!("FAIL {} :: {}", c.spec(), e); fails += 1; if fails >= 3 { break } }
    }
    println!("DONE cases={} of={} fails={} sample={}", done, all.len(), fails, all[shard.min(all.len() - 1)].spec());
    if fails > 0 { std::process::exit(1) }
}
