//! mirdump: a rustc wrapper that writes the type-checked, monomorphic MIR of the crate it compiles
//! (plus the small std bodies it calls) as JSON. It never runs the analysed program.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(v: &[T], mut f: impl FnMut(&T) -> String) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dump<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    ty_queue: VecDeque<(usize, Ty)>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Option<String>>,
    inst_queue: VecDeque<(usize, Instance)>,
    local_crate: String,
}

/// Modules of core/alloc/std whose (small, total) bodies are exported so that they can be analysed
/// like local code instead of being modelled by hand.
const STD_BODY_MODULES: &[&str] = &[
    "option", "result", "bool", "cmp", "convert", "mem", "ops", "iter", "default", "clone", "tuple",
    "borrow", "marker",
];

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.ty_ids.insert(t, i);
        self.tys.push(String::new());
        self.ty_queue.push_back((i, t));
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        list(&a.0, |g| match g {
            GenericArgKind::Type(t) => self.ty(*t).to_string(),
            GenericArgKind::Lifetime(_) => "null".into(),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(v) => format!("{{\"c\":{}}}", v),
                Err(_) => format!("{{\"c\":{}}}", esc(&format!("{:?}", c))),
            },
        })
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.inst_ids.insert(i, n);
        self.insts.push(None);
        self.inst_queue.push_back((n, i));
        n
    }
    fn span(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }
    fn fill_ty(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = esc(&format!("{}", t));
        let r = match &k {
            TyKind::RigidTy(r) => r.clone(),
            other => return format!("{{\"k\":\"other\",\"s\":{},\"d\":{}}}", disp, esc(&format!("{:?}", other))),
        };
        let body = match &r {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
            RigidTy::Str => "\"k\":\"str\"".to_string(),
            RigidTy::Never => "\"k\":\"never\"".to_string(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(*e), n)
            }
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            RigidTy::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), matches!(m, Mutability::Mut))
            }
            RigidTy::Ref(_, e, m) => {
                format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), matches!(m, Mutability::Mut))
            }
            RigidTy::Tuple(v) => format!("\"k\":\"tuple\",\"f\":{}", list(v, |t| self.ty(*t).to_string())),
            RigidTy::FnDef(d, a) => {
                let inst = match Instance::resolve(*d, a) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                let ga = self.gargs(a);
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}", esc(&d.name().to_string()), ga, inst)
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
            RigidTy::Closure(d, a) => {
                let inst = match Instance::resolve_closure(*d, a, ClosureKind::Fn) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!("\"k\":\"closure\",\"def\":{},\"inst\":{}", esc(&d.name().to_string()), inst)
            }
            RigidTy::Adt(d, a) => {
                let name = d.name().to_string();
                let krate = d.krate().name.to_string();
                let expand = krate == self.local_crate
                    || ["core::option", "std::option", "core::result", "std::result", "core::ops", "std::ops", "core::range", "std::range",
                        "core::cmp", "std::cmp", "core::convert", "std::convert", "core::net", "std::net",
                        "core::iter", "std::iter", "core::mem::MaybeUninit", "core::mem::ManuallyDrop"]
                        .iter()
                        .any(|p| name.starts_with(p));
                let kind = d.kind();
                let ga = self.gargs(a);
                let mut s = format!(
                    "\"k\":\"adt\",\"def\":{},\"crate\":{},\"args\":{},\"ak\":\"{}\",\"repr\":{}",
                    esc(&name),
                    esc(&krate),
                    ga,
                    if kind.is_enum() { "enum" } else if kind.is_union() { "union" } else { "struct" },
                    esc(&format!("{:?}", d.repr().int))
                );
                if expand {
                    s.push_str(",\"v\":[");
                    for (i, v) in d.variants().iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        let discr = if kind.is_enum() { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let fields = v.fields();
                        let fl = list(&fields, |f| format!("[{},{}]", esc(&f.name.to_string()), self.ty(f.ty_with_args(a))));
                        let _ = write!(s, "{{\"n\":{},\"d\":{},\"f\":{}}}", esc(&v.name().to_string()), discr, fl);
                    }
                    s.push(']');
                }
                s
            }
            other => format!("\"k\":\"opaque\",\"d\":{}", esc(&format!("{:?}", other))),
        };
        let lay = match &r {
            RigidTy::Adt(..) | RigidTy::Tuple(..) | RigidTy::Array(..) => Self::layout(t),
            _ => String::new(),
        };
        format!("{{{},\"s\":{}{}}}", body, disp, lay)
    }

    /// Size, field offsets and tag encoding, as computed by the compiler.
    fn layout(t: Ty) -> String {
        use rustc_public::abi::*;
        let Ok(l) = t.layout() else { return String::new() };
        let s = l.shape();
        if s.is_unsized() {
            return String::new();
        }
        let offs = |v: &Vec<rustc_public::target::MachineSize>| list(v, |o| o.bytes().to_string());
        let fo = match &s.fields {
            FieldsShape::Arbitrary { offsets } => offs(offsets),
            _ => "null".into(),
        };
        let v = match &s.variants {
            VariantsShape::Empty => "null".to_string(),
            VariantsShape::Single { index } => format!("{{\"one\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag {
                    Scalar::Initialized { value, .. } => value,
                    Scalar::Union { value } => value,
                };
                let ts = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                let to = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                format!("{{\"tag\":[{},{}],\"niche\":{},\"off\":{}}}", to, ts, enc, list(variants, |v| offs(&v.offsets)))
            }
        };
        format!(",\"lay\":{{\"size\":{},\"f\":{},\"v\":{}}}", s.size.bytes(), fo, v)
    }

    fn alloc_bytes(a: &Allocation) -> String {
        let v: Vec<i32> = a.bytes.iter().map(|b| b.map(|x| x as i32).unwrap_or(-1)).collect();
        list(&v, |x| x.to_string())
    }
    fn alloc(&mut self, a: &Allocation, depth: usize) -> String {
        let mut s = format!("{{\"b\":{}", Self::alloc_bytes(a));
        if !a.provenance.ptrs.is_empty() && depth < 4 {
            s.push_str(",\"p\":[");
            for (i, (off, prov)) in a.provenance.ptrs.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                let g = GlobalAlloc::from(prov.0);
                let t = match g {
                    GlobalAlloc::Memory(al) => format!("{{\"mem\":{}}}", self.alloc(&al, depth + 1)),
                    GlobalAlloc::Static(sd) => {
                        let t = self.ty(sd.ty());
                        format!("{{\"static\":{},\"ty\":{}}}", esc(&sd.name().to_string()), t)
                    }
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    other => format!("{{\"other\":{}}}", esc(&format!("{:?}", other))),
                };
                let _ = write!(s, "[{},{}]", off, t);
            }
            s.push(']');
        }
        s.push('}');
        s
    }
    fn cst(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, 0),
            ConstantKind::ZeroSized => "{\"zst\":1}".into(),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("{{\"u\":{}}}", v),
                Err(_) => format!("{{\"o\":{}}}", esc(&format!("{:?}", tc))),
            },
            other => format!("{{\"o\":{}}}", esc(&format!("{:?}", other))),
        };
        format!("[\"k\",{},{}]", tid, v)
    }
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut s = format!("[{}", p.local);
        for e in &p.projection {
            s.push(',');
            let t = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            };
            s.push_str(&t);
        }
        s.push(']');
        s
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.cst(c),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops, |x| self.op(x));
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},{}]", k, o)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op(o),
                n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", matches!(m, Mutability::Mut), self.place(p)),
        }
    }
    fn line(s: &Span) -> usize {
        s.get_lines().start_line
    }
    fn body(&mut self, b: &Body) -> String {
        let mut s = String::new();
        let locals = b.locals().to_vec();
        let _ = write!(s, "{{\"argc\":{},\"locals\":{}", b.arg_locals().len(), list(&locals, |l| self.ty(l.ty).to_string()));
        let _ = write!(s, ",\"spread\":{}", b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()));
        let names: Vec<_> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| (l, v.name.to_string()))).collect();
        let _ = write!(s, ",\"names\":{}", list(&names, |(l, n)| format!("[{},{}]", l, esc(n))));
        s.push_str(",\"bb\":[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let pp = self.place(p);
                        format!("[\"=\",{},{},{}]", pp, self.rv(r), Self::line(&st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => "[\"cno\"]".into(),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&j);
            }
            s.push_str("],\"t\":");
            let ln = Self::line(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> = targets.branches().collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.op(discr),
                        list(&br, |(v, t)| format!("[{},{}]", v, t)),
                        targets.otherwise(),
                        ln
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = list(args, |x| self.op(x));
                    let d = self.place(destination);
                    let t = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, a, d, t, ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                        AssertMessage::Overflow(b, x, y) => (format!("Overflow({:?})", b), vec![x, y]),
                        AssertMessage::OverflowNeg(x) => ("OverflowNeg".into(), vec![x]),
                        AssertMessage::DivisionByZero(x) => ("DivisionByZero".into(), vec![x]),
                        AssertMessage::RemainderByZero(x) => ("RemainderByZero".into(), vec![x]),
                        AssertMessage::MisalignedPointerDereference { .. } => ("Misaligned".into(), vec![]),
                        AssertMessage::NullPointerDereference => ("NullPtr".into(), vec![]),
                        other => (format!("{:?}", other).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(), vec![]),
                    };
                    let c = self.op(cond);
                    format!("[\"assert\",{},{},{},{},{},{}]", c, expected, esc(&mk), list(&ops, |x| self.op(x)), target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            s.push_str(&t);
            s.push('}');
        }
        s.push_str("]}");
        s
    }
    fn want_body(&self, i: &Instance, krate: &str) -> bool {
        if matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) {
            return false;
        }
        if krate == self.local_crate {
            return true;
        }
        if !["core", "std", "alloc"].contains(&krate) {
            return false;
        }
        let did = rustc_public::rustc_internal::internal(self.tcx, i.def.into_item().def_id());
        match self.tcx.def_path(did).data.first().and_then(|d| d.data.get_opt_name()) {
            Some(n) => STD_BODY_MODULES.contains(&n.as_str()),
            None => false,
        }
    }
    fn fill_inst(&mut self, i: Instance) -> String {
        let def: CrateItem = i.def.into_item();
        let name = def.name().to_string();
        let krate = def.krate().name.to_string();
        let mono = i.name().to_string();
        let args = i.args();
        let ga = self.gargs(&args);
        let (exported, safety, trait_) = self.internal_info(def);
        let mut s = format!(
            "{{\"def\":{},\"name\":{},\"crate\":{},\"kind\":{},\"args\":{},\"span\":{},\"exported\":{},\"unsafe\":{},\"trait\":{},\"ikind\":{}",
            esc(&name),
            esc(&mono),
            esc(&krate),
            esc(&format!("{:?}", i.kind)),
            ga,
            esc(&self.span(&def.span())),
            exported,
            safety,
            esc(&trait_),
            esc(&format!("{:?}", def.kind())),
        );
        if self.want_body(&i, &krate) {
            if let Some(b) = i.body() {
                let bj = self.body(&b);
                let _ = write!(s, ",\"body\":{}", bj);
            }
        }
        if krate != self.local_crate && (!s.contains(",\"body\":") || name.ends_with("::from_iter")) {
            let it = self.iter_info(&args);
            let _ = write!(s, ",\"iters\":{}", it);
        }
        s.push('}');
        s
    }
    /// For the type arguments of a function without exported body: the resolved `Iterator::next` /
    /// `IntoIterator::into_iter` instances, so that its model can drive the iteration.
    fn iter_info(&mut self, a: &GenericArgs) -> String {
        let tcx = self.tcx;
        let next = tcx.lang_items().next_fn();
        let into = tcx.lang_items().into_iter_fn();
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let tys: Vec<Ty> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect();
        let mut out = vec![];
        for t in tys {
            let it = rustc_public::rustc_internal::internal(tcx, t);
            let mut n = String::from("null");
            let mut c = String::from("null");
            let mut of = it;
            if let Some(d) = into {
                let ga = tcx.mk_args(&[it.into()]);
                if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(tcx, env, d, ga) {
                    let sig = i.ty(tcx, env).fn_sig(tcx);
                    of = tcx.normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig.output())));
                    let st: Instance = rustc_public::rustc_internal::stable(i);
                    c = self.inst(st).to_string();
                } else {
                    continue;
                }
            }
            if let Some(d) = next {
                let ga = tcx.mk_args(&[of.into()]);
                if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(tcx, env, d, ga) {
                    let st: Instance = rustc_public::rustc_internal::stable(i);
                    n = self.inst(st).to_string();
                }
            }
            let tid = self.ty(t);
            out.push(format!("[{},{},{}]", tid, c, n));
        }
        format!("[{}]", out.join(","))
    }
    fn internal_info(&self, def: CrateItem) -> (bool, bool, String) {
        use rustc_hir::def::DefKind;
        let did = rustc_public::rustc_internal::internal(self.tcx, def.def_id());
        let exported = match did.as_local() {
            Some(l) => self.tcx.effective_visibilities(()).is_exported(l) || {
                // trait impl methods are exported with the impl
                match self.tcx.opt_parent(did) {
                    Some(p) if self.tcx.def_kind(p) == (DefKind::Impl { of_trait: true }) => true,
                    _ => false,
                }
            },
            None => true,
        };
        let k = self.tcx.def_kind(did);
        let safety = match k {
            DefKind::Fn | DefKind::AssocFn => !self.tcx.fn_sig(did).skip_binder().safety().is_safe(),
            _ => false,
        };
        let mut tr = String::new();
        if let Some(p) = self.tcx.opt_parent(did) {
            match self.tcx.def_kind(p) {
                DefKind::Impl { of_trait: true } => {
                    tr = format!("{}", self.tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip());
                }
                DefKind::Trait => tr = format!("trait {}", self.tcx.def_path_str(p)),
                _ => {}
            }
        }
        (exported, safety, tr)
    }
}

trait IntoItem {
    fn into_item(self) -> CrateItem;
}
impl IntoItem for rustc_public::mir::mono::InstanceDef {
    fn into_item(self) -> CrateItem {
        CrateItem(self.def_id())
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>, out: String) -> ControlFlow<(), ()> {
    let local = rustc_public::local_crate().name.to_string();
    let mut d = Dump {
        tcx,
        ty_ids: HashMap::new(),
        tys: vec![],
        ty_queue: VecDeque::new(),
        inst_ids: HashMap::new(),
        insts: vec![],
        inst_queue: VecDeque::new(),
        local_crate: local.clone(),
    };
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) {
            continue;
        }
        if it.requires_monomorphization() {
            generic.push(it.name().to_string());
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            d.inst(i);
        }
    }
    for a in rustc_public::local_crate().adts() {
        let t = a.ty();
        d.ty(t);
    }
    let statics: Vec<String> = rustc_public::local_crate().statics().iter().map(|s| {
        let did = rustc_public::rustc_internal::internal(tcx, s.def_id());
        let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let freeze = ty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
        format!("{{\"name\":{},\"ty\":{},\"mut\":{},\"interior\":{},\"thread_local\":{}}}", esc(&s.name().to_string()), esc(&ty.to_string()), tcx.is_mutable_static(did), !freeze, tcx.is_thread_local_static(did))
    }).collect();
    loop {
        if let Some((n, i)) = d.inst_queue.pop_front() {
            let s = d.fill_inst(i);
            d.insts[n] = Some(s);
        } else if let Some((n, t)) = d.ty_queue.pop_front() {
            let s = d.fill_ty(t);
            d.tys[n] = s;
        } else {
            break;
        }
    }
    let mut s = String::new();
    s.push_str("{\"crate\":");
    s.push_str(&esc(&local));
    s.push_str(",\"generic\":");
    s.push_str(&list(&generic, |g| esc(g)));
    s.push_str(",\"statics\":");
    s.push_str(&list(&statics, |g| g.clone()));
    s.push_str(",\n\"types\":[\n");
    s.push_str(&d.tys.join(",\n"));
    s.push_str("],\n\"insts\":[\n");
    let v: Vec<String> = d.insts.into_iter().map(|x| x.unwrap()).collect();
    s.push_str(&v.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
        args.push("--cap-lints=allow".into());
        let r = run_with_tcx!(&args, |tcx| dump(tcx, out));
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        rustc_driver::install_ice_hook(rustc_driver::DEFAULT_BUG_REPORT_URL, |_| ());
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
