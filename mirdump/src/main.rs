// Dumps the monomorphised MIR of every function reachable from the functions of the crate being
// compiled, as JSON, to the file named by MIRDUMP_OUT. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
fn vix(v: &VariantIdx) -> usize { let t = format!("{:?}", v); let d: String = t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect(); d.parse().unwrap() }
use std::collections::HashMap;
use std::fmt::Write;

enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(v) => { let _ = write!(o, "{}", v); }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } let _ = write!(o, "\"{}\":", k); x.w(o); } o.push('}'); }
        }
    }
}

struct Cx {
    tys: HashMap<Ty, usize>,
    tyout: Vec<J>,
    fns: HashMap<Instance, usize>,
    queue: Vec<Instance>,
}

fn crate_name(d: rustc_public::DefId, _i: ()) -> String { d.name().split("::").next().unwrap_or("").trim_start_matches('<').to_string() }

fn stop(name: &str) -> bool {
    const P: &[&str] = &["core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::rt", "core::str", "alloc::raw_vec",
        "alloc::alloc", "alloc::string", "std::string", "core::alloc", "std::thread", "std::sync::mpsc", "std::io", "core::unicode", "std::sys",
        "core::slice::sort", "core::num::flt2dec", "core::num::dec2flt", "std::alloc", "std::process", "core::slice::index::slice_", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed"];
    P.iter().any(|p| name.starts_with(p) || name.starts_with(&format!("<{}", p)))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.tyout.len();
        self.tys.insert(t, id);
        self.tyout.push(J::Null);
        let disp = format!("{}", t);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => { o.push(("k", s("int"))); o.push(("w", n(i.num_bytes() * 8))); }
                RigidTy::Uint(i) => { o.push(("k", s("uint"))); o.push(("w", n(i.num_bytes() * 8))); }
                RigidTy::Float(f) => { o.push(("k", s("float"))); o.push(("w", s(format!("{:?}", f)))); }
                RigidTy::Adt(d, a) => {
                    o.push(("k", s("adt")));
                    o.push(("name", s(d.name())));
                    o.push(("adtkind", s(format!("{:?}", d.kind()))));
                    let args = self.gargs(&a);
                    o.push(("args", args));
                    let mut vs = vec![];
                    let std_opaque = { let nm = d.name(); nm.starts_with("alloc::") || nm.starts_with("std::") };
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = if std_opaque { J::Null } else { let ft = f.ty_with_args(&a); n(self.ty(ft)) };
                            fs.push(J::O(vec![("name", s(f.name.clone())), ("ty", ft)]));
                        }
                        vs.push(J::O(vec![("name", s(v.name())), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                    o.push(("local", s(d.krate().name)));
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, c) => { o.push(("k", s("array"))); let e = self.ty(e); o.push(("e", n(e))); o.push(("n", c.eval_target_usize().map(|x| n(x as usize)).unwrap_or(J::Null))); }
                RigidTy::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e); o.push(("e", n(e))); }
                RigidTy::RawPtr(e, m) => { o.push(("k", s("ptr"))); let e = self.ty(e); o.push(("e", n(e))); o.push(("m", J::B(m == Mutability::Mut))); }
                RigidTy::Ref(_, e, m) => { o.push(("k", s("ref"))); let e = self.ty(e); o.push(("e", n(e))); o.push(("m", J::B(m == Mutability::Mut))); }
                RigidTy::FnDef(d, _) => { o.push(("k", s("fndef"))); o.push(("name", s(d.name()))); }
                RigidTy::Closure(d, _) => { o.push(("k", s("closure"))); o.push(("name", s(d.name()))); }
                RigidTy::Dynamic(..) => { o.push(("k", s("dyn"))); }
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.into_iter().map(|t| n(self.ty(t))).collect(); o.push(("es", J::A(v))); }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        self.tyout[id] = J::O(o);
        id
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(n(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(J::O(vec![("const", c.eval_target_usize().map(|x| n(x as usize)).unwrap_or(s(format!("{:?}", c))))])),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fns.get(&i) { return *x; }
        let id = self.fns.len();
        self.fns.insert(i, id);
        self.queue.push(i);
        id
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); J::A(vec![s("f"), n(*i), n(t)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), n(*offset as usize), n(*min_length as usize), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(*from as usize), n(*to as usize), J::B(*from_end)]),
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), n(vix(v))]),
                _ => s(format!("?{:?}", e)),
            });
        }
        J::A(vec![n(p.local), J::A(v)])
    }
    fn alloc(&mut self, a: &Allocation, t: Ty) -> J {
        let tid = self.ty(t);
        let mut o = vec![("c", s("alloc")), ("ty", n(tid))];
        o.push(("bytes", J::A(a.bytes.iter().map(|b| match b { Some(x) => J::N(*x as i128), None => J::Null }).collect())));
        let mut pv = vec![];
        for (off, p) in &a.provenance.ptrs {
            let ga = rustc_public::mir::alloc::GlobalAlloc::from(p.0);
            use rustc_public::mir::alloc::GlobalAlloc;
            let d = match ga {
                GlobalAlloc::Memory(m) => {
                    J::O(vec![("off", n(*off)), ("mem", J::A(m.bytes.iter().map(|b| match b { Some(x) => J::N(*x as i128), None => J::Null }).collect())), ("nprov", n(m.provenance.ptrs.len()))])
                }
                GlobalAlloc::Static(st) => J::O(vec![("off", n(*off)), ("static", s(st.name()))]),
                GlobalAlloc::Function(i) => J::O(vec![("off", n(*off)), ("fn", s(i.name()))]),
                _ => J::O(vec![("off", n(*off)), ("other", J::B(true))]),
            };
            pv.push(d);
        }
        o.push(("prov", J::A(pv)));
        J::O(o)
    }
    fn cst(&mut self, c: &ConstOperand) -> J {
        let t = c.const_.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
            return self.fnref(d, &args);
        }
        let tid = self.ty(t);
        match c.const_.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, t),
            ConstantKind::ZeroSized => J::O(vec![("c", s("zst")), ("ty", n(tid))]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc(a, t),
                _ => match tc.eval_target_usize() { Ok(v) => J::O(vec![("c", s("usize")), ("v", J::N(v as i128)), ("ty", n(tid))]), Err(_) => J::O(vec![("c", s("?")), ("ty", n(tid)), ("d", s(format!("{:?}", c.const_)))]) },
            },
            _ => match c.const_.eval_target_usize() { Ok(v) => J::O(vec![("c", s("usize")), ("v", J::N(v as i128)), ("ty", n(tid))]), Err(_) => J::O(vec![("c", s("?")), ("ty", n(tid)), ("d", s(format!("{:?}", c.const_.kind())))]) },
        }
    }
    fn fnref(&mut self, d: FnDef, args: &GenericArgs) -> J {
        match Instance::resolve(d, args) {
            Ok(i) => {
                let id = self.inst(i);
                let ga = self.gargs(args);
                J::O(vec![("c", s("fn")), ("fn", n(id)), ("def", s(d.name())), ("args", ga)])
            }
            Err(_) => { let ga = self.gargs(args); J::O(vec![("c", s("fn")), ("fn", J::Null), ("def", s(d.name())), ("args", ga)]) }
        }
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.cst(c)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> J { J::A(v.iter().map(|o| self.op(o)).collect()) }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), s(match k { BorrowKind::Mut { .. } => "mut", _ => "shr" }), self.place(p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if *m == Mutability::Mut { "mut" } else { "shr" }), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let a = self.ops(ops);
                let kind = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), n(t)]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => { let t = self.ty(d.ty_with_args(args)); J::A(vec![s("adt"), n(t), n(vix(v)), f.map(n).unwrap_or(J::Null)]) }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        J::A(vec![s("closure"), n(t), s(d.name())])
                    }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); J::A(vec![s("rawptr"), n(t)]) }
                    _ => J::A(vec![s("?")]),
                };
                J::A(vec![s("agg"), kind, a])
            }
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| n(self.ty(t))).unwrap_or(J::Null); J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(x), self.op(y), t]) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).map(|t| n(self.ty(t))).unwrap_or(J::Null); J::A(vec![s("cbin"), s(format!("{:?}", b)), self.op(x), self.op(y), t]) }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(locals).map(|t| n(self.ty(t))).unwrap_or(J::Null);
                let mut v = vec![s("cast"), s(format!("{:?}", k)), self.op(o), n(self.ty(*t)), ft];
                // closure / fn item to fn pointer
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Ok(ct) = o.ty(locals) { if let TyKind::RigidTy(RigidTy::Closure(d, a)) = ct.kind() {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { v.push(n(self.inst(i))); } } }
                }
                J::A(v)
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(o), c.eval_target_usize().map(|x| n(x as usize)).unwrap_or(J::Null)]),
            Rvalue::UnaryOp(u, o) => { let t = o.ty(locals).map(|t| n(self.ty(t))).unwrap_or(J::Null); J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o), t]) }
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::ThreadLocalRef(c) => J::A(vec![s("tls"), s(c.name())]),
        }
    }
    fn span(&self, sp: Span) -> J {
        let l = sp.get_lines();
        s(format!("{}:{}", sp.get_filename(), l.start_line))
    }
    fn body(&mut self, i: Instance) -> J {
        let nm = i.name();
        let def = i.def.name();
        let krate = i.def.krate().name;
        let mut o = vec![("inst", s(nm.clone())), ("def", s(def.clone())), ("krate", s(krate)), ("kind", s(format!("{:?}", i.kind)))];
        if let Some(x) = i.intrinsic_name() { o.push(("intrinsic", s(x))); }
        let ga = i.args(); let ga = self.gargs(&ga); o.push(("args", ga));
        if matches!(i.kind, InstanceKind::Virtual { .. }) || stop(&def) || stop(&nm) { return J::O(o); }
        if let Some(b) = i.body() {
            let locals: Vec<LocalDecl> = b.locals().to_vec();
            o.push(("argc", n(b.arg_locals().len())));
            if let Some(sa) = b.spread_arg() { o.push(("spread", n(sa))); }
            o.push(("span", self.span(b.span)));
            let lt = locals.iter().map(|l| n(self.ty(l.ty))).collect(); o.push(("locals", J::A(lt)));
            let mut names = vec![];
            for v in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &v.value { let p = self.place(p); names.push(J::A(vec![s(v.name.clone()), p])); }
            }
            o.push(("names", J::A(names)));
            let mut bs = vec![];
            for bb in &b.blocks {
                let mut st = vec![];
                for x in &bb.statements {
                    match &x.kind {
                        StatementKind::Assign(p, r) => { let j = J::A(vec![s("="), self.place(p), self.rv(r, &locals), self.span(x.source_info.span)]); st.push(j); }
                        StatementKind::SetDiscriminant { place, variant_index } => { let j = J::A(vec![s("setd"), self.place(place), n(vix(variant_index))]); st.push(j); }
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let j = J::A(vec![s("assume"), self.op(o)]); st.push(j); }
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let j = J::A(vec![s("cno"), self.op(&c.src), self.op(&c.dst), self.op(&c.count)]); st.push(j); }
                        _ => {}
                    }
                }
                let sp = self.span(bb.terminator.source_info.span);
                let t = match &bb.terminator.kind {
                    TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let t = discr.ty(&locals).map(|t| n(self.ty(t))).unwrap_or(J::Null);
                        let br = targets.branches().map(|(v, b)| J::A(vec![J::N(v as i128), n(b)])).collect();
                        J::A(vec![s("switch"), self.op(discr), J::A(br), n(targets.otherwise()), t])
                    }
                    TerminatorKind::Return => J::A(vec![s("ret")]),
                    TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                    TerminatorKind::Resume => J::A(vec![s("resume")]),
                    TerminatorKind::Abort => J::A(vec![s("abort")]),
                    TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), n(*target)]),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        J::A(vec![s("call"), self.op(func), self.ops(args), self.place(destination), target.map(n).unwrap_or(J::Null), sp])
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let (m, ops) = match msg {
                            AssertMessage::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(len), self.op(index)]),
                            AssertMessage::Overflow(b, x, y) => (format!("overflow {:?}", b), vec![self.op(x), self.op(y)]),
                            AssertMessage::DivisionByZero(_) => ("div0".into(), vec![]),
                            AssertMessage::RemainderByZero(_) => ("rem0".into(), vec![]),
                            AssertMessage::OverflowNeg(_) => ("overflow Neg".into(), vec![]),
                            _ => ("ub".into(), vec![]),
                        };
                        J::A(vec![s("assert"), self.op(cond), J::B(*expected), s(m), J::A(ops), n(*target), sp])
                    }
                    _ => J::A(vec![s("?")]),
                };
                bs.push(J::O(vec![("s", J::A(st)), ("t", t)]));
            }
            o.push(("blocks", J::A(bs)));
        }
        J::O(o)
    }
}

fn dump<'tcx>(_tcx: rustc_middle::ty::TyCtxt<'tcx>) -> std::ops::ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if out.is_empty() { return std::ops::ControlFlow::Continue(()); }
    let mut cx = Cx { tys: HashMap::new(), tyout: vec![], fns: HashMap::new(), queue: vec![] };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let it: CrateItem = it;
        if let Ok(i) = Instance::try_from(it) {
            if matches!(it.kind(), rustc_public::ItemKind::Fn) && !i.name().contains("{closure") { let id = cx.inst(i); roots.push(J::A(vec![s(it.name()), n(id)])); }
        }
    }
    let mut fout: Vec<J> = vec![];
    let mut k = 0;
    while k < cx.queue.len() {
        let i = cx.queue[k];
        fout.push(cx.body(i));
        k += 1;
    }
    // structure of the crate under verification: statics, ADTs, trait impls
    let mut statics = vec![]; let mut adts = vec![]; let mut impls = vec![];
    for c in rustc_public::external_crates() {
        if c.name == "rustdht" {
            for st in c.statics() { statics.push(s(st.name())); }
            for a in c.adts() { adts.push(s(a.name())); }
            for im in c.trait_impls() { let t = im.trait_impl(); let t = t.skip_binder_unchecked_name(); impls.push(J::A(vec![s(im.name()), s(t)])); }
        }
    }
    let j = J::O(vec![("roots", J::A(roots)), ("fns", J::A(fout)), ("tys", J::A(std::mem::take(&mut cx.tyout))), ("statics", J::A(statics)), ("adts", J::A(adts)), ("impls", J::A(impls))]);
    let mut o = String::new();
    j.w(&mut o);
    std::fs::write(out, o).unwrap();
    std::ops::ControlFlow::Continue(())
}
trait Nm { fn skip_binder_unchecked_name(self) -> String; }
impl Nm for rustc_public::ty::EarlyBinder<TraitRef> { fn skip_binder_unchecked_name(self) -> String { let v = self.value; format!("{} for {}", v.def_id.name(), v.self_ty()) } }

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the real rustc
    if args.len() > 1 && args[1].contains("rustc") { args.remove(0); }
    let _ = crate_name as fn(rustc_public::DefId, ()) -> String;
    let r = run_with_tcx!(&args, dump);
    if let Err(e) = r { if !matches!(e, rustc_public::CompilerError::Skipped) { std::process::exit(1); } }
}
