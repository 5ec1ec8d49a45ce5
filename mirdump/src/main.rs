//! Exports the monomorphic MIR of everything reachable from the `w_*` functions of the crate
//! being compiled, as JSON. Used exactly like `rustc`; the output path is taken from
//! the environment variable MIRDUMP_OUT, and MIRDUMP_STOP names a file with one name prefix per
//! line of functions whose bodies are not exported (they are modelled by the analysis).
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_middle::ty::TyCtxt;
use rustc_public::rustc_internal;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::*;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if out.is_empty() {
        let r = run!(&args, || -> ControlFlow<(), ()> { ControlFlow::Continue(()) });
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let r = run_with_tcx!(&args, |tcx: TyCtxt<'_>| -> ControlFlow<(), ()> {
        dump(tcx, &out);
        ControlFlow::Continue(())
    });
    if r.is_err() {
        std::process::exit(1);
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    stop: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    types: HashMap<Ty, usize>,
    type_list: Vec<Ty>,
    type_json: Vec<Option<String>>,
    allocs: HashMap<AllocId, usize>,
    alloc_list: Vec<AllocId>,
    alloc_json: Vec<Option<String>>,
    fns: Vec<Option<String>>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, mut f: F) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.fns.push(None);
        self.queue.push_back(k);
        k
    }

    fn norm(&self, ty: Ty) -> Ty {
        let t = rustc_internal::internal(self.tcx, ty);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t)) {
            Ok(n) => rustc_internal::stable(n),
            Err(_) => ty,
        }
    }

    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(&k) = self.types.get(&ty) {
            return k;
        }
        let k = self.type_list.len();
        self.types.insert(ty, k);
        self.type_list.push(ty);
        self.type_json.push(None);
        k
    }

    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(&k) = self.allocs.get(&a) {
            return k;
        }
        let k = self.alloc_list.len();
        self.allocs.insert(a, k);
        self.alloc_list.push(a);
        self.alloc_json.push(None);
        k
    }

    fn bytes(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in a.bytes.iter() {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("--"),
            }
        }
        let prov = jl(a.provenance.ptrs.iter(), |(off, p)| {
            format!("[{},{}]", off, self.alloc(p.0))
        });
        format!("{},{}", js(&hex), prov)
    }

    fn alloc_def(&mut self, a: AllocId) -> String {
        match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => format!("[\"fn\",{}]", self.inst(i)),
            GlobalAlloc::VTable(t, _) => format!("[\"vtable\",{}]", self.ty(t)),
            GlobalAlloc::Static(s) => format!("[\"static\",{}]", js(&s.name())),
            GlobalAlloc::Memory(m) => {
                let b = self.bytes(&m);
                format!("[\"mem\",{}]", b)
            }
            GlobalAlloc::TypeId { ty } => format!("[\"typeid\",{}]", self.ty(ty)),
        }
    }

    fn tyconst(&mut self, c: &TyConst) -> String {
        match c.eval_target_usize() {
            Ok(v) => v.to_string(),
            Err(_) => match c.kind() {
                TyConstKind::Value(_, a) => match a.read_uint() {
                    Ok(v) => v.to_string(),
                    Err(_) => "null".into(),
                },
                _ => "null".into(),
            },
        }
    }

    fn gargs(&mut self, args: &GenericArgs) -> String {
        let mut v = Vec::new();
        for a in args.0.iter() {
            match a {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => {
                    let s = self.tyconst(c);
                    v.push(format!("[{}]", s))
                }
            }
        }
        format!("[{}]", v.join(","))
    }

    fn layout(&mut self, ty: Ty) -> String {
        let Ok(l) = ty.layout() else { return "null".into() };
        let s = l.shape();
        let offs = match &s.fields {
            FieldsShape::Arbitrary { offsets } => jl(offsets.iter(), |o| o.bytes().to_string()),
            FieldsShape::Array { stride, count } => format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count),
            FieldsShape::Union(_) => "\"union\"".into(),
            FieldsShape::Primitive => "null".into(),
        };
        let vars = match &s.variants {
            VariantsShape::Empty => "\"empty\"".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let tagsize = match tag {
                    Scalar::Initialized { value, .. } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                    Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        js(&niche_start.to_string())
                    ),
                };
                format!(
                    "{{\"tagsize\":{},\"enc\":{},\"field\":{},\"offs\":{}}}",
                    tagsize,
                    enc,
                    tag_field,
                    jl(variants.iter(), |v| jl(v.offsets.iter(), |o| o.bytes().to_string()))
                )
            }
        };
        format!(
            "{{\"size\":{},\"align\":{},\"offs\":{},\"vars\":{}}}",
            s.size.bytes(),
            s.abi_align,
            offs,
            vars
        )
    }

    fn type_def(&mut self, ty: Ty) -> String {
        let kind = ty.kind();
        let name = js(&format!("{}", ty));
        let needs_drop = {
            let t = rustc_internal::internal(self.tcx, ty);
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            t.needs_drop(self.tcx, env)
        };
        let body = match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(t)),
                RigidTy::Array(t, n) => {
                    let c = self.tyconst(&n);
                    format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(t), c)
                }
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"t\":{}", self.ty(t)),
                RigidTy::RawPtr(t, m) => {
                    format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", self.ty(t), m == Mutability::Mut)
                }
                RigidTy::Ref(_, t, m) => {
                    format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", self.ty(t), m == Mutability::Mut)
                }
                RigidTy::FnDef(d, ref a) => {
                    let inst = Instance::resolve(d, a).ok();
                    let id = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"fndef\",\"fn\":{}", id)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(_, ref a) => {
                    // The upvar tuple type is the last generic argument.
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => jl(ts, |t| self.ty(t).to_string()),
                            _ => "[]".into(),
                        },
                        _ => "[]".into(),
                    };
                    format!("\"k\":\"closure\",\"ups\":{}", up)
                }
                RigidTy::Tuple(ts) => format!("\"k\":\"tuple\",\"ts\":{}", jl(ts, |t| self.ty(t).to_string())),
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Adt(d, ref a) => {
                    let k = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = Vec::new();
                    for v in d.variants() {
                        let mut fs = Vec::new();
                        for f in v.fields() {
                            let ft = self.norm(f.ty_with_args(a));
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},{},[{}]]", js(&v.name()), js(&discr), fs.join(",")));
                    }
                    let ga = self.gargs(a);
                    format!(
                        "\"k\":\"{}\",\"adt\":{},\"args\":{},\"variants\":[{}]",
                        k,
                        js(&d.name()),
                        ga,
                        vs.join(",")
                    )
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        let lay = self.layout(ty);
        format!("{{\"name\":{},{},\"drop\":{},\"lay\":{}}}", name, body, needs_drop, lay)
    }

    fn file_line(&mut self, sp: Span) -> String {
        let f = sp.get_filename();
        let l = sp.get_lines().start_line;
        let n = self.files.len();
        let k = match self.files.get(&f) {
            Some(k) => *k,
            None => {
                self.files.insert(f.clone(), n);
                self.file_list.push(f);
                n
            }
        };
        format!("[{},{}]", k, l)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(i, t) => {
                    let _ = write!(o, "[\"f\",{},{}]", i, self.ty(*t));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, "[\"d\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(t) => {
                    let _ = write!(o, "[\"o\",{}]", self.ty(*t));
                }
            }
        }
        o.push(']');
        o
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"k\",{}]", t),
            ConstantKind::Allocated(a) => {
                let b = self.bytes(a);
                format!("[\"k\",{},{}]", t, b)
            }
            ConstantKind::Ty(c) => {
                let s = self.tyconst(c);
                format!("[\"kc\",{},{}]", t, s)
            }
            k => format!("[\"k?\",{},{}]", t, js(&format!("{:?}", k))),
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p))
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Reborrow(t, m, p) => {
                format!("[\"reb\",{},{},{}]", self.ty(*t), *m == Mutability::Mut, self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = jl(ops.iter(), |o| self.operand(o));
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(_, v, _, _, f) => format!(
                        "[\"adt\",{},{}]",
                        v.to_index(),
                        f.map(|f| f.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => "[\"closure\"]".into(),
                    AggregateKind::RawPtr(t, m) => {
                        format!("[\"rawptr\",{},{}]", self.ty(*t), *m == Mutability::Mut)
                    }
                    _ => "[\"other\"]".into(),
                };
                let ty = r.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"agg\",{},{},{}]", kk, ops, ty)
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"chk\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let Ok(ot) = o.ty(locals) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                }
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Ok(ot) = o.ty(locals) {
                        if let TyKind::RigidTy(RigidTy::Closure(d, a)) = ot.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                }
                let kn = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c).split('(').next().unwrap().to_string(),
                    k => format!("{:?}", k),
                };
                let from = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cast\",\"{}\",{},{},{},{}]", kn, self.operand(o), self.ty(*t), extra, from)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = self.tyconst(n);
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "-1".into(),
            UnwindAction::Unreachable => "-2".into(),
            UnwindAction::Terminate => "-3".into(),
            UnwindAction::Cleanup(b) => b.to_string(),
        }
    }

    fn fn_def(&mut self, k: usize) -> String {
        let i = self.inst_list[k];
        let name = i.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let foreign = i.kind == InstanceKind::Item && i.is_foreign_item();
        let args = self.gargs(&i.args());
        let defname = CrateItem::try_from(i).map(|c| c.name().to_string()).unwrap_or_else(|_| name.clone());
        let krate = CrateItem::try_from(i).map(|c| c.krate().name.to_string()).unwrap_or_default();
        let intr = i.intrinsic_name().map(|s| js(&s)).unwrap_or("null".into());
        let head = format!(
            "\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"intrinsic\":{},\"foreign\":{},\"args\":{}",
            k,
            js(&name),
            js(&defname),
            js(&krate),
            kind,
            intr,
            foreign,
            args
        );
        let stopped = self.stop.iter().any(|s| defname.starts_with(s.as_str()) || name.starts_with(s.as_str()));
        let body = if foreign || stopped || kind == "virtual" || kind == "llvm" || kind == "intrinsic" {
            None
        } else {
            i.body()
        };
        let empty_shim = i.kind == InstanceKind::Shim && i.is_empty_shim();
        let Some(body) = body else {
            // Still export the signature's return type, so that a call can be modelled.
            return format!("{{{},\"stopped\":{},\"empty\":{},\"body\":null}}", head, stopped, empty_shim);
        };
        let locals = body.locals();
        let lt = jl(locals.iter(), |l| self.ty(l.ty).to_string());
        let names = {
            let mut v = Vec::new();
            for d in body.var_debug_info.iter() {
                if let VarDebugInfoContents::Place(p) = &d.value {
                    if p.projection.is_empty() {
                        v.push(format!("[{},{}]", p.local, js(&d.name)));
                    }
                }
            }
            format!("[{}]", v.join(","))
        };
        let mut blocks = Vec::new();
        for b in body.blocks.iter() {
            let mut sts = Vec::new();
            for s in b.statements.iter() {
                let fl = self.file_line(s.source_info.span);
                let j = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, locals), fl)
                    }
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{},{}]", self.operand(o), fl)
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!(
                        "[\"cpy\",{},{},{},{}]",
                        self.operand(&c.src),
                        self.operand(&c.dst),
                        self.operand(&c.count),
                        fl
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::FakeRead(..)
                    | StatementKind::AscribeUserType { .. }
                    | StatementKind::PlaceMention(..)
                    | StatementKind::Coverage(..)
                    | StatementKind::ConstEvalCounter
                    | StatementKind::Nop => continue,
                };
                sts.push(j);
            }
            let fl = self.file_line(b.terminator.source_info.span);
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"sw\",{},{},{}]",
                    self.operand(discr),
                    jl(targets.branches(), |(v, b)| format!("[{},{}]", js(&v.to_string()), b)),
                    targets.otherwise()
                ),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(locals).unwrap();
                    let di = Instance::resolve_drop_in_place(pt);
                    let id = if di.is_empty_shim() { "null".into() } else { self.inst(di).to_string() };
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(place),
                        target,
                        self.unwind(unwind),
                        id,
                        self.ty(pt)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let ft = func.ty(locals).unwrap();
                    let f = match ft.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        },
                        _ => format!("[\"ind\",{}]", self.operand(func)),
                    };
                    let dt = destination.ty(locals).unwrap();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        jl(args.iter(), |o| self.operand(o)),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        self.unwind(unwind),
                        self.ty(dt)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("Overflow{:?}", op),
                        m => format!("{:?}", m).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{}]",
                        self.operand(cond),
                        expected,
                        m,
                        target,
                        self.unwind(unwind)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{},{}]", sts.join(","), t, fl));
        }
        let spread = body.spread_arg().map(|l| l.to_string()).unwrap_or("null".into());
        let fl = self.file_line(body.span);
        format!(
            "{{{},\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"span\":{},\"body\":[{}]}}",
            head,
            body.arg_locals().len(),
            lt,
            names,
            spread,
            fl,
            blocks.join(",\n")
        )
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let stop = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())
        .unwrap_or_default();
    let mut cx = Cx {
        tcx,
        stop,
        insts: HashMap::new(),
        inst_list: vec![],
        queue: VecDeque::new(),
        types: HashMap::new(),
        type_list: vec![],
        type_json: vec![],
        allocs: HashMap::new(),
        alloc_list: vec![],
        alloc_json: vec![],
        fns: vec![],
        files: HashMap::new(),
        file_list: vec![],
    };
    let mut entries = Vec::new();
    for item in rustc_public::all_local_items() {
        let n = item.name().to_string();
        let last = n.rsplit("::").next().unwrap().to_string();
        if !last.starts_with("w_") || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let k = cx.inst(i);
            entries.push(format!("{}:{}", js(&n), k));
        }
    }
    while let Some(k) = cx.queue.pop_front() {
        let j = cx.fn_def(k);
        cx.fns[k] = Some(j);
        if cx.queue.is_empty() {
            close(&mut cx);
        }
    }
    close(&mut cx);
    let mut o = String::new();
    o.push_str("{\"entries\":{");
    o.push_str(&entries.join(","));
    o.push_str("},\n\"files\":");
    o.push_str(&jl(cx.file_list.iter(), |f| js(f)));
    o.push_str(",\n\"fns\":[\n");
    o.push_str(&cx.fns.iter().map(|f| f.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"types\":[\n");
    o.push_str(&cx.type_json.iter().map(|f| f.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"allocs\":[\n");
    o.push_str(&cx.alloc_json.iter().map(|f| f.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

/// Exports the definitions of every type and constant allocation mentioned so far, which may
/// mention further types, allocations and functions.
fn close(cx: &mut Cx<'_>) {
    loop {
        let mut progress = false;
        for k in 0..cx.type_list.len() {
            if cx.type_json[k].is_none() {
                let t = cx.type_list[k];
                let j = cx.type_def(t);
                cx.type_json[k] = Some(j);
                progress = true;
            }
        }
        for k in 0..cx.alloc_list.len() {
            if cx.alloc_json[k].is_none() {
                let a = cx.alloc_list[k];
                let j = cx.alloc_def(a);
                cx.alloc_json[k] = Some(j);
                progress = true;
            }
        }
        if !progress {
            break;
        }
    }
}
