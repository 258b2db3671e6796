// MIR dump driver: compiles the probe crate and writes, as JSON, the monomorphic MIR of every
// function reachable from the probe's entry points (std, dependencies and halo2curves alike),
// the types and layouts they use, and the constants the compiler evaluated for them.
// It only reads the compiler's view of the source; nothing is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Dump {
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    fn_ids: HashMap<Instance, usize>,
    fns: Vec<String>,
    queue: VecDeque<(Instance, usize)>,
    alloc_ids: HashMap<AllocId, usize>,
    allocs: Vec<String>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    stop: Vec<String>,
    locals: Vec<LocalDecl>,
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => match a.0.first() {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}

impl Dump {
    /// the methods of a closure behind a `dyn Fn*` pointer, by vtable index
    fn vtable(&mut self, from: Ty, to: Ty) -> Option<String> {
        let (a, b) = (pointee(from)?, pointee(to)?);
        let tr = b.kind().trait_principal()?;
        if a.kind().trait_principal().is_some() { return None; }
        let n = tr.value.def_id.name().to_string();
        if !["Fn", "FnMut", "FnOnce"].contains(&n.rsplit("::").next().unwrap()) { return None; }
        let tref: TraitRef = rustc_middle::ty::tls::with(|tcx| {
            let b = rustc_public::rustc_internal::internal(tcx, tr.with_self_ty(a));
            rustc_public::rustc_internal::stable(tcx.instantiate_bound_regions_with_erased(b))
        });
        let mut v = vec![];
        for (i, e) in tref.vtable_entries().into_iter().enumerate() {
            if let VtblEntry::Method(m) = e {
                let id = self.func(m);
                v.push(format!("[{},{}]", i, id));
            }
        }
        Some(arr(v))
    }

    fn file(&mut self, s: &str) -> usize {
        if let Some(i) = self.files.get(s) {
            return *i;
        }
        let i = self.file_list.len();
        self.files.insert(s.to_string(), i);
        self.file_list.push(s.to_string());
        i
    }

    fn span(&mut self, sp: Span) -> String {
        let f = sp.get_filename();
        let l = sp.get_lines();
        let i = self.file(&f);
        format!("[{},{}]", i, l.start_line)
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"n\":{}}}", n),
                    Err(_) => "{\"n\":null}".to_string(),
                }),
            }
        }
        arr(v)
    }

    fn scalar(&mut self, s: &Scalar) -> String {
        let p = match s {
            Scalar::Initialized { value, .. } => value,
            Scalar::Union { value } => value,
        };
        match p {
            Primitive::Int { length, signed } => {
                format!("[\"i\",{},{}]", length.bits() / 8, signed)
            }
            Primitive::Pointer(_) => "[\"p\",8,false]".to_string(),
            Primitive::Float { .. } => "[\"f\",0,false]".to_string(),
        }
    }

    fn layout(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let s = l.shape();
        let fields = match &s.fields {
            FieldsShape::Primitive => "null".to_string(),
            FieldsShape::Union(_) => "\"union\"".to_string(),
            FieldsShape::Array { stride, count } => {
                format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
            }
            FieldsShape::Arbitrary { offsets } => {
                arr(offsets.iter().map(|o| o.bytes().to_string()).collect())
            }
        };
        let vars = match &s.variants {
            VariantsShape::Empty => "\"empty\"".to_string(),
            VariantsShape::Single { index } => {
                format!("{{\"single\":{}}}", vidx(index))
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = match &s.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        format!(
                            "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                            vidx(untagged_variant),
                            vidx(niche_variants.start()),
                            vidx(niche_variants.end()),
                            niche_start
                        )
                    }
                };
                let vs = arr(variants
                    .iter()
                    .map(|v| arr(v.offsets.iter().map(|o| o.bytes().to_string()).collect()))
                    .collect());
                let tg = self.scalar(tag);
                format!("{{\"tag\":{},\"off\":{},\"enc\":{},\"vars\":{}}}", tg, off, enc, vs)
            }
        };
        format!(
            "{{\"size\":{},\"align\":{},\"fields\":{},\"variants\":{}}}",
            s.size.bytes(),
            s.abi_align,
            fields,
            vars
        )
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let a = self.args(&args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let n = f.name.to_string();
                            let ft = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", jstr(&n), self.ty(ft)));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("[{},{},{}]", jstr(&v.name().to_string()), d, arr(fs)));
                    }
                    format!(
                        "\"k\":{},\"name\":{},\"args\":{},\"variants\":{},\"box\":{}",
                        jstr(kind),
                        jstr(&def.name()),
                        a,
                        arr(vs),
                        def.is_box()
                    )
                }
                RigidTy::Foreign(_) => "\"k\":\"foreign\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"elem\":{},\"len\":{}", e, n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::FnDef(def, args) => {
                    let f = match Instance::resolve(def, &args) {
                        Ok(i) => self.func(i).to_string(),
                        Err(_) => "null".to_string(),
                    };
                    format!("\"k\":\"fndef\",\"name\":{},\"fn\":{}", jstr(&def.name()), f)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(def, args) => {
                    // upvar types: last generic arg is the tuple of captured types
                    let up = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "null".to_string(),
                    };
                    // closures of the analysed crate may only be called by a stopped function
                    let f = if def.krate().name == "halo2curves" {
                        match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                            Ok(i) => self.func(i).to_string(),
                            Err(_) => "null".to_string(),
                        }
                    } else { "null".to_string() };
                    format!("\"k\":\"closure\",\"name\":{},\"up\":{},\"fn\":{}", jstr(&def.name()), up, f)
                }
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Tuple(ts) => {
                    let v = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"elems\":{}", arr(v))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Pat(t, _) => format!("\"k\":\"pat\",\"base\":{}", self.ty(t)),
                _ => "\"k\":\"other\"".to_string(),
            },
            TyKind::Alias(..) => "\"k\":\"alias\"".to_string(),
            TyKind::Param(..) => "\"k\":\"param\"".to_string(),
            TyKind::Bound(..) => "\"k\":\"bound\"".to_string(),
        };
        let lay = self.layout(t);
        let s = format!("{{{},\"s\":{},\"l\":{}}}", body, jstr(&format!("{}", t)), lay);
        self.tys[id] = s;
        id
    }

    fn func(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fn_ids.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fn_ids.insert(i, id);
        self.fns.push(String::new());
        self.queue.push_back((i, id));
        id
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("__"),
            }
        }
        let mut p = vec![];
        for (o, pr) in &a.provenance.ptrs {
            p.push(format!("[{},{}]", o, self.alloc_id(pr.0)));
        }
        format!("\"b\":\"{}\",\"p\":{}", hex, arr(p))
    }

    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&a) {
            return *i;
        }
        let id = self.allocs.len();
        self.alloc_ids.insert(a, id);
        self.allocs.push(String::new());
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => format!("{{\"k\":\"mem\",{}}}", self.alloc(&m)),
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"fn\":{}}}", self.func(i)),
            GlobalAlloc::Static(s) => {
                let t = self.ty(s.ty());
                let n = jstr(&s.name());
                match s.eval_initializer() {
                    Ok(m) => {
                        format!("{{\"k\":\"static\",\"name\":{},\"ty\":{},{}}}", n, t, self.alloc(&m))
                    }
                    Err(_) => format!("{{\"k\":\"static\",\"name\":{},\"ty\":{}}}", n, t),
                }
            }
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            GlobalAlloc::TypeId { ty } => format!("{{\"k\":\"typeid\",\"ty\":{}}}", self.ty(ty)),
        };
        self.allocs[id] = s;
        id
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"o\":\"k\",\"t\":{},{}}}", t, self.alloc(a)),
            ConstantKind::ZeroSized => format!("{{\"o\":\"k\",\"t\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("{{\"o\":\"k\",\"t\":{},{}}}", t, self.alloc(a)),
                TyConstKind::ZSTValue(_) => format!("{{\"o\":\"k\",\"t\":{},\"z\":1}}", t),
                _ => match tc.eval_target_usize() {
                    Ok(n) => {
                        let mut h = String::new();
                        for b in n.to_le_bytes() {
                            let _ = write!(h, "{:02x}", b);
                        }
                        format!("{{\"o\":\"k\",\"t\":{},\"b\":\"{}\",\"p\":[]}}", t, h)
                    }
                    Err(_) => format!("{{\"o\":\"k\",\"t\":{},\"bad\":1}}", t),
                },
            },
            _ => format!("{{\"o\":\"k\",\"t\":{},\"bad\":1}}", t),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(i) => {
                    format!("[\"v\",{}]", vidx(i))
                }
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"c\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"m\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"r\",\"r\":{}}}", jstr(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            vidx(v),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(o))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(p) => format!("{:?}", p),
                    k => format!("{:?}", k),
                };
                let oo = self.op(o);
                let vt = if ks == "Unsize" {
                    o.ty(&self.locals).ok().and_then(|f| self.vtable(f, *t)).map(|v| format!(",{}", v)).unwrap_or_default()
                } else { String::new() };
                format!("[\"cast\",{},{},{}{}]", jstr(&ks), oo, self.ty(*t), vt)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"o\":\"c\",\"p\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        self.locals = b.locals().to_vec();
        let mut locals = vec![];
        for l in b.locals() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, jstr(&v.name.to_string())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", ps, rs, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(place);
                        st.push(format!(
                            "[\"sd\",{},{}]",
                            ps,
                            vidx(variant_index)
                        ));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let a = self.op(&c.src);
                        let d = self.op(&c.dst);
                        let n = self.op(&c.count);
                        st.push(format!("[\"cno\",{},{},{}]", a, d, n));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let a = self.op(o);
                        st.push(format!("[\"assume\",{}]", a));
                    }
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.op(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok();
                    let d = match pt {
                        Some(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            if i.is_empty_shim() { "null".to_string() } else { self.func(i).to_string() }
                        }
                        None => "null".to_string(),
                    };
                    format!("[\"drop\",{},{},{}]", self.place(place), target, d)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    let t = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{}]", f, arr(a), d, t)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            let l = self.op(len);
                            let i = self.op(index);
                            format!("[\"bounds\",{},{}]", l, i)
                        }
                        m => format!("[\"other\",{}]", jstr(m.description().unwrap_or("assert"))),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { template, operands, options, destination, .. } => {
                    let mut os = vec![];
                    for o in operands {
                        let i = match &o.in_value {
                            Some(x) => self.op(x),
                            None => "null".into(),
                        };
                        let p = match &o.out_place {
                            Some(x) => self.place(x),
                            None => "null".into(),
                        };
                        os.push(format!("[{},{},{}]", i, p, jstr(&o.raw_rpr)));
                    }
                    let d = destination.map(|t| t.to_string()).unwrap_or("null".into());
                    format!("[\"asm\",{},{},{},{}]", jstr(template), arr(os), jstr(options), d)
                }
            };
            blocks.push(format!("[{},{},{}]", arr(st), t, sp));
        }
        format!(
            "\"locals\":{},\"names\":{},\"argc\":{},\"spread\":{},\"blocks\":{}",
            arr(locals),
            arr(names),
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            arr(blocks)
        )
    }

    fn run(&mut self) {
        while let Some((i, id)) = self.queue.pop_front() {
            let name = i.name().to_string();
            let def_name = i.def.name().to_string();
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let vidx = if let InstanceKind::Virtual { idx } = i.kind { format!(",\"vidx\":{}", idx) } else { String::new() };
            let args = { let a = i.args(); self.args(&a) };
            let intr = i.intrinsic_name().map(|s| jstr(&s.to_string())).unwrap_or("null".into());
            let krate = i.def.krate().name.to_string();
            let stopped = self.stop.iter().any(|s| {
                if let Some(p) = s.strip_suffix('*') { name.starts_with(p) || def_name.starts_with(p) } else { &name == s || &def_name == s }
            });
            let sp = { let s = i.def.span(); self.span(s) };
            let mut b = String::new();
            if !stopped && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) {
                if let Some(body) = i.body() {
                    b = format!(",{}", self.body(&body));
                }
            }
            self.fns[id] = format!(
                "{{\"name\":{},\"def\":{},\"kind\":\"{}\",\"args\":{},\"intr\":{},\"crate\":{},\"span\":{},\"stopped\":{}{}{}}}",
                jstr(&name), jstr(&def_name), kind, args, intr, jstr(&krate), sp, stopped, vidx, b
            );
        }
    }
}

fn analyze(out: String, stop: Vec<String>) -> ControlFlow<()> {
    let mut d = Dump { stop, ..Default::default() };
    let mut roots = vec![];
    let mut consts = vec![];
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if let Ok(i) = Instance::try_from(item) {
                    let n = item.name().to_string();
                    if n.contains("{closure") { continue; }
                    let id = d.func(i);
                    roots.push(format!("[{},{}]", jstr(&n), id));
                }
            }
            ItemKind::Static => {
                if let Ok(s) = rustc_public::mir::mono::StaticDef::try_from(item) {
                    let t = d.ty(s.ty());
                    if let Ok(a) = s.eval_initializer() {
                        let v = d.alloc(&a);
                        consts.push(format!("[{},{},{{\"o\":\"k\",\"t\":{},{}}}]", jstr(&s.name().to_string()), t, t, v));
                    } else {
                        consts.push(format!("[{},{},null]", jstr(&s.name().to_string()), t));
                    }
                }
            }
            _ => {}
        }
    }
    d.run();
    let s = format!(
        "{{\"roots\":{},\"statics\":{},\n\"types\":[{}],\n\"fns\":[\n{}\n],\n\"allocs\":[{}],\n\"files\":{}}}\n",
        arr(roots), arr(consts),
        d.tys.join(",\n"),
        d.fns.join(",\n"),
        d.allocs.join(",\n"),
        arr(d.file_list.iter().map(|s| jstr(s)).collect())
    );
    std::fs::write(&out, s).unwrap();
    ControlFlow::Continue(())
}

// ---- effect inventory: every body of one crate, polymorphic, as a list of the things it refers to ----
#[derive(Default)]
struct Effects {
    out: Vec<String>,
    statics: Vec<String>,
}

fn gargs(a: &GenericArgs) -> String {
    arr(a.0.iter().map(|g| match g {
        GenericArgKind::Type(t) => jstr(&tystr(*t)),
        GenericArgKind::Const(c) => jstr(&c.eval_target_usize().map(|n| n.to_string()).unwrap_or("?".into())),
        GenericArgKind::Lifetime(_) => jstr("'_"),
    }).collect())
}

fn tystr(t: Ty) -> String {
    match t.kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, _)) => format!("fn item {}", d.name()),
        TyKind::RigidTy(RigidTy::Closure(d, a)) => {
            let up = match a.0.last() { Some(GenericArgKind::Type(t)) => format!("{}", t), _ => "?".into() };
            format!("closure {} captures {}", d.name(), up)
        }
        _ => format!("{}", t),
    }
}

fn static_of(a: &Allocation, v: &mut Vec<String>, depth: usize) {
    if depth > 8 { return; }
    for (_, pr) in &a.provenance.ptrs {
        match GlobalAlloc::from(pr.0) {
            GlobalAlloc::Static(s) => v.push(format!("[{},{},{}]", jstr(&s.name()), jstr(&format!("{}", s.ty())), jstr(&s.krate().name))),
            GlobalAlloc::Memory(m) => static_of(&m, v, depth + 1),
            _ => {}
        }
    }
}

impl Effects {
    fn konst(&self, c: &MirConst, refs: &mut Vec<String>) {
        match c.kind() {
            ConstantKind::Allocated(a) => static_of(a, refs, 0),
            _ => {}
        }
    }
    fn item(&mut self, it: rustc_public::CrateItem) {
        let name = it.name().to_string();
        let Some(b) = it.body() else { return };
        let mut ev: Vec<String> = vec![];
        let mut refs: Vec<String> = vec![];
        let line = |sp: Span| { let l = sp.get_lines(); format!("{},{}", jstr(&sp.get_filename()), l.start_line) };
        let locals: Vec<String> = b.locals().iter().map(|l| jstr(&tystr(l.ty))).collect();
        let mut ops: Vec<(MirConst, Span)> = vec![];
        let mut push = |o: &Operand, sp: Span| if let Operand::Constant(c) = o { ops.push((c.const_.clone(), sp)) };
        for bb in &b.blocks {
            for s in &bb.statements {
                let sp = s.source_info.span;
                if let StatementKind::Assign(_, r) = &s.kind {
                    match r {
                        Rvalue::Aggregate(_, os) => os.iter().for_each(|o| push(o, sp)),
                        Rvalue::BinaryOp(_, x, y) | Rvalue::CheckedBinaryOp(_, x, y) => { push(x, sp); push(y, sp) }
                        Rvalue::Cast(k, o, t) => {
                            push(o, sp);
                            let ks = format!("{:?}", k);
                            let from = o.ty(b.locals()).map(|t| format!("{}", t)).unwrap_or_default();
                            ev.push(format!("[\"cast\",{},{},{},{}]", jstr(&ks), jstr(&from), jstr(&format!("{}", t)), line(sp)));
                        }
                        Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => push(o, sp),
                        Rvalue::ThreadLocalRef(_) => ev.push(format!("[\"tls\",{}]", line(sp))),
                        _ => {}
                    }
                }
            }
            let sp = bb.terminator.source_info.span;
            match &bb.terminator.kind {
                TerminatorKind::Call { func, args, .. } => {
                    args.iter().for_each(|o| push(o, sp));
                    match func.ty(b.locals()).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            let uns = format!("{:?}", d.fn_sig().skip_binder().safety);
                            ev.push(format!("[\"call\",{},{},{},{},{}]", jstr(&d.name()), jstr(&d.krate().name), gargs(&a), jstr(&uns), line(sp)));
                        }
                        Ok(t) => ev.push(format!("[\"icall\",{},{}]", jstr(&format!("{:?}", t).chars().take(60).collect::<String>()), line(sp))),
                        _ => ev.push(format!("[\"icall\",\"?\",{}]", line(sp))),
                    }
                }
                TerminatorKind::SwitchInt { discr, .. } => push(discr, sp),
                TerminatorKind::Assert { cond, .. } => push(cond, sp),
                TerminatorKind::InlineAsm { template, .. } => ev.push(format!("[\"asm\",{},{}]", jstr(template), line(sp))),
                _ => {}
            }
        }
        for (c, sp) in ops {
            let n = refs.len();
            self.konst(&c, &mut refs);
            let ct = jstr(&format!("{}", c.ty()));
            for r in &refs[n..] { ev.push(format!("[\"static\",{},{},{}]", r, ct, line(sp))); }
            if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.ty().kind() {
                ev.push(format!("[\"fnval\",{},{},{},{}]", jstr(&d.name()), jstr(&d.krate().name), gargs(&a), line(sp)));
            }
        }
        self.out.push(format!("{{\"name\":{},\"kind\":{},\"span\":[{}],\"locals\":{},\"ev\":{}}}",
            jstr(&name), jstr(&format!("{:?}", it.kind())), line(it.span()), arr(locals), arr(ev)));
    }
}

fn effects(out: String) -> ControlFlow<()> {
    let mut e = Effects::default();
    for item in rustc_public::all_local_items() {
        if let ItemKind::Static = item.kind() {
            let t = item.ty();
            let l = item.span().get_lines();
            e.statics.push(format!("[{},{},{},{}]", jstr(&item.name()), jstr(&format!("{}", t)), jstr(&item.span().get_filename()), l.start_line));
        }
        e.item(item);
    }
    std::fs::write(&out, format!("{{\"items\":[\n{}\n],\"statics\":[{}]}}\n", e.out.join(",\n"), e.statics.join(",\n"))).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // our own path; args[0] is now the real rustc
    let krate = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or("probe".into());
    if krate.as_deref() == Some(want.as_str()) {
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let stop = std::env::var("MIRDUMP_STOP").ok().map(|f| std::fs::read_to_string(f).unwrap()).unwrap_or_default();
        let stop: Vec<String> = stop.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
        let r = if std::env::var("MIRDUMP_MODE").as_deref() == Ok("effects") { run!(&args, || effects(out)) } else { run!(&args, || analyze(out, stop)) };
        if r.is_err() { std::process::exit(101); }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
}

fn vidx(v: &VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}
