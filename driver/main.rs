// MIR exporter: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that writes the
// monomorphic, type-resolved MIR of the crate under analysis as JSON.
// It decides nothing; the analyses in /verif/sa read its output.
#![feature(rustc_private)]
#![allow(rustc::default_hash_types)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_ast::attr::AttributeExt as _;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<String, String>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    consts_failed: usize,
}

impl<'tcx> Ex<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}|{}", i.def, i))
    }
    fn enqueue(&mut self, i: Instance<'tcx>) -> Option<String> {
        match i.def {
            ty::InstanceKind::Item(_) => {}
            _ => return None,
        }
        // bodies of this crate, and bodies of generic or inline library code
        // from the crates the analysis looks into
        if !i.def_id().is_local() {
            let d = i.def_id();
            if self.tcx.intrinsic(d).is_some() {
                return None;
            }
            let c = self.tcx.crate_name(d.krate);
            let p = self.path(d);
            let ok = match c.as_str() {
                "nom" | "itertools" | "bitflags" => true,
                "core" | "alloc" | "std" => {
                    !(p.contains("fmt::")
                        || p.contains("panicking::")
                        || p.contains("alloc::")
                        || p.contains("raw_vec")
                        || p.contains("::ptr::")
                        || p.contains("ptr::")
                        || p.contains("vec::")
                        || p.contains("string::")
                        || p.contains("collections::")
                        || p.contains("std::hash")
                        || p.contains("hash::")
                        || p.contains("mem::")
                        || p.contains("precondition_check")
                        || p.contains("std::slice::memchr")
                        || p.contains("iter::adapters::copied")
                        || p.contains("in_place")
                        || p.contains("backtrace")
                        || p.contains("spec_"))
                }
                _ => false,
            };
            if !ok {
                return None;
            }
        }
        if matches!(self.tcx.def_kind(i.def_id()), DefKind::Ctor(..)) {
            return None;
        }
        if !self.tcx.is_mir_available(i.def_id()) {
            return None;
        }
        if self.seen.insert(i) {
            self.queue.push_back(i);
        }
        Some(self.inst_key(i))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, lo.line))
    }
    fn has_panics_doc(&self, d: DefId) -> bool {
        #[allow(deprecated)]
        self.tcx.get_all_attrs(d).iter().any(|a| match a.doc_str() {
            Some(s) => s.as_str().contains("# Panics"),
            None => false,
        })
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let tcx = self.tcx;
        let disp = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let j = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"bits\":{}", x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("\"k\":\"uint\",\"bits\":{}", x.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let mut s = format!(
                    "\"k\":\"adt\",\"path\":{},\"local\":{},\"enum\":{},\"args\":[{}]",
                    esc(&self.path(def.did())),
                    def.did().is_local(),
                    def.is_enum(),
                    args.types()
                        .map(|t| self.ty(t).to_string())
                        .collect::<Vec<_>>()
                        .join(",")
                );
                // variants and fields
                let expand = def.is_enum() || def.is_struct();
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args);
                            let fty = tcx.normalize_erasing_regions(self.env(), fty);
                            let fid = self.ty(fty);
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fid,
                                if def.did().is_local() { f.vis.is_public() } else { false }));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}",
                            esc(v.name.as_str()),
                            d,
                            fs.join(",")
                        ));
                    }
                    s.push_str(&format!(",\"v\":[{}]", vs.join(",")));
                }
                s
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                format!("\"k\":\"slice\",\"t\":{}", i)
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n.try_to_target_usize(tcx);
                format!("\"k\":\"array\",\"t\":{},\"len\":{}", i, n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":[{}]", v.join(","))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                format!("\"k\":\"fndef\",{}", self.callee(*d, args))
            }
            ty::Closure(d, args) => {
                let ups: Vec<_> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                let inst = Instance::new_raw(*d, args);
                let key = self.enqueue(inst);
                format!(
                    "\"k\":\"closure\",\"path\":{},\"ups\":[{}],\"inst\":{},\"ck\":{}",
                    esc(&self.path(*d)),
                    ups.join(","),
                    key.map(|k| esc(&k)).unwrap_or("null".into()),
                    esc(&format!("{:?}", args.as_closure().kind()))
                )
            }
            ty::FnPtr(..) => {
                let out = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx)).output();
                let out = self.tcx.erase_and_anonymize_regions(out);
                format!("\"k\":\"fnptr\",\"ret\":{}", self.ty(out))
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_json[id] = format!("{{\"s\":{},{}}}", esc(&disp), j);
        id
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let targs: Vec<_> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut s = format!("\"path\":{},\"args\":[{}]", esc(&self.path(d)), targs.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            s.push_str(&format!(",\"trait\":{}", esc(&self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            // tuple constructor used as function
            let parent = tcx.parent(d);
            let (adt, vname) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                _ => (parent, tcx.item_name(parent).to_string()),
            };
            let aty = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let aty = tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(aty));
            let a = self.ty(aty);
            s.push_str(&format!(",\"ctor\":{},\"cvar\":{}", a, esc(&vname)));
            return s;
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(), d, args) {
            let rd = inst.def_id();
            if rd != d || !matches!(inst.def, ty::InstanceKind::Item(_)) {
                s.push_str(&format!(",\"rpath\":{}", esc(&self.path(rd))));
            }
            s.push_str(&format!(",\"local\":{}", rd.is_local()));
            if !matches!(inst.def, ty::InstanceKind::Item(_)) {
                s.push_str(&format!(",\"shim\":{}", esc(&format!("{:?}", inst.def).chars().take_while(|c| *c != '(').collect::<String>())));
            }
            if let Some(k) = self.enqueue(inst) {
                s.push_str(&format!(",\"inst\":{}", esc(&k)));
            }
            if !rd.is_local() {
                let pd = self.has_panics_doc(rd) || self.has_panics_doc(d);
                s.push_str(&format!(",\"panics_doc\":{}", pd));
                s.push_str(&format!(",\"crate\":{}", esc(tcx.crate_name(rd.krate).as_str())));
                let name = tcx.opt_item_name(rd).map(|x| x.to_string()).unwrap_or_default();
                s.push_str(&format!(",\"name\":{}", esc(&name)));
                // is the callee an unsafe fn?
                if matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
                    let uns = tcx.fn_sig(rd).skip_binder().skip_binder().safety().is_unsafe();
                    s.push_str(&format!(",\"unsafe\":{}", uns));
                }
            }
        }
        s
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pj = vec![];
        for e in p.projection.iter() {
            pj.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"opaque\"]".to_string(),
            });
        }
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let t = self.ty(t);
        format!("[{},[{}],{}]", p.local.as_usize(), pj.join(","), t)
    }
    // constant value -> JSON
    fn constval(&mut self, c: &ConstOperand<'tcx>) -> String {
        let ty0 = c.const_.ty();
        let ty = self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(ty0));
        let tid = self.ty(ty);
        if let ty::FnDef(..) = ty.kind() {
            return format!("{{\"c\":\"fn\",\"t\":{}}}", tid);
        }
        match c.const_.eval(self.tcx, self.env(), c.span) {
            Ok(v) => {
                let b = self.cv(v, ty);
                let nm = match c.const_ {
                    mir::Const::Unevaluated(u, _) => {
                        if u.promoted.is_none() {
                            format!(",\"name\":{}", esc(&self.path(u.def)))
                        } else {
                            String::new()
                        }
                    }
                    _ => String::new(),
                };
                format!("{{\"c\":\"val\",\"t\":{},\"v\":{}{}}}", tid, b, nm)
            }
            Err(_) => {
                self.consts_failed += 1;
                format!("{{\"c\":\"unk\",\"t\":{}}}", tid)
            }
        }
    }
    /// scalars (and thin pointers) that live in constant memory
    fn load(&self, v: ConstValue, ty: Ty<'tcx>) -> ConstValue {
        if let ConstValue::Indirect { alloc_id, offset } = v {
            let scalar = match ty.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => true,
                ty::Ref(_, inner, _) => inner.is_sized(self.tcx, self.env()),
                _ => false,
            };
            if scalar {
                if let mir::interpret::GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    if let Ok(l) = self.tcx.layout_of(self.env().as_query_input(ty)) {
                        let r = mir::interpret::alloc_range(offset, l.size);
                        if let Ok(s) = m.inner().read_scalar(&self.tcx, r, ty.is_ref()) {
                            return ConstValue::Scalar(s);
                        }
                    }
                }
            }
        }
        v
    }
    fn slice_parts(&self, v: ConstValue) -> Option<(mir::interpret::AllocId, u64, rustc_abi::Size)> {
        match v {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, meta, rustc_abi::Size::ZERO)),
            ConstValue::Indirect { alloc_id, offset } => {
                let mir::interpret::GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return None };
                let ps = self.tcx.data_layout.pointer_size();
                let p = m.inner().read_scalar(&self.tcx, mir::interpret::alloc_range(offset, ps), true).ok()?;
                let n = m.inner().read_scalar(&self.tcx, mir::interpret::alloc_range(offset + ps, ps), false).ok()?;
                let mir::interpret::Scalar::Ptr(p, _) = p else { return None };
                let (prov, off) = p.into_raw_parts();
                let n = n.try_to_scalar_int().ok()?.to_uint(ps) as u64;
                Some((prov.alloc_id(), n, off))
            }
            _ => None,
        }
    }
    fn cv(&mut self, v: ConstValue, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let v = self.load(v, ty);
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let x = match ty.kind() {
                        ty::Int(_) => s.to_int(size).to_string(),
                        _ => s.to_uint(size).to_string(),
                    };
                    return format!("[\"i\",\"{}\"]", x);
                }
            }
            ty::Float(f) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let x = match f.bit_width() {
                        64 => format!("{:?}", f64::from_bits(s.to_uint(s.size()) as u64)),
                        32 => format!("{:?}", f32::from_bits(s.to_uint(s.size()) as u32)),
                        _ => "nan".into(),
                    };
                    return format!("[\"fl\",\"{}\"]", x);
                }
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)));
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let xs: Vec<_> = b.iter().map(|x| x.to_string()).collect();
                            return format!("[\"bytes\",[{}]]", xs.join(","));
                        }
                    }
                }
                if let ty::Slice(e) = inner.kind() {
                    if let Some((alloc_id, n, off)) = self.slice_parts(v) {
                        if let (Ok(l), true) = (tcx.layout_of(self.env().as_query_input(*e)), n <= 4096) {
                            let xs: Vec<_> = (0..n)
                                .map(|i| self.cv(ConstValue::Indirect { alloc_id, offset: off + l.size * i }, *e))
                                .collect();
                            let t = self.ty(*inner);
                            return format!("[\"ref\",[\"arr\",{},0,[{}]]]", t, xs.join(","));
                        }
                    }
                }
                // reference to sized constant memory: read through
                if inner.is_sized(tcx, self.env()) {
                    if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                        let (prov, off) = p.into_raw_parts();
                        let alloc_id = prov.alloc_id();
                        if let mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(alloc_id) {
                            let iv = ConstValue::Indirect { alloc_id, offset: off };
                            let b = self.cv(iv, *inner);
                            return format!("[\"ref\",{}]", b);
                        }
                    }
                }
            }
            ty::Tuple(ts) if ts.is_empty() => return "[\"unit\"]".into(),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                let tccx = tcx.at(rustc_span::DUMMY_SP);
                if let Some(d) = tccx.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let fs: Vec<_> = d.fields.iter().map(|(v, t)| self.cv(*v, *t)).collect();
                    let vi = d.variant.map(|x| x.as_usize() as i64).unwrap_or(0);
                    let k = match ty.kind() {
                        ty::Array(..) => "arr",
                        ty::Tuple(..) => "tup",
                        _ => "adt",
                    };
                    let t = self.ty(ty);
                    return format!("[\"{}\",{},{},[{}]]", k, t, vi, fs.join(","));
                }
            }
            ty::FnDef(..) | ty::Closure(..) => return "[\"zst\"]".into(),
            _ => {}
        }
        self.consts_failed += 1;
        "[\"unk\"]".into()
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"k\":{}}}", self.constval(c)),
            Operand::RuntimeChecks(_) => "{\"o\":\"rtcheck\"}".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"repeat\",{},{}]", self.operand(body, o), n.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let from = self.ty(from);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, o), from, t)
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", esc(&format!("{:?}", op)), self.operand(body, &bx.0), self.operand(body, &bx.1), t)
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(body, o), t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<_> = ops.iter().map(|o| self.operand(body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"arr\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tup\"]".into(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t));
                        format!("[\"adt\",{},{}]", self.ty(t), vi.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t));
                        format!("[\"clo\",{}]", self.ty(t))
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"o\":\"copy\",\"p\":{}}}]", self.place(body, p)),
            _ => "[\"unk\"]".into(),
        }
    }
    fn export(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let key = self.inst_key(i);
        let raw = tcx.instance_mir(i.def);
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, raw.clone()));
        let mut s = String::new();
        let d = i.def_id();
        let vis = match d.as_local() {
            Some(l) => tcx.effective_visibilities(()).is_reachable(l),
            None => false,
        };
        let (impl_of, item) = {
            let im = tcx.impl_of_assoc(d).map(|im| {
                let t = tcx.type_of(im).skip_binder();
                rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
            });
            let tr = tcx.impl_of_assoc(d).and_then(|im| tcx.impl_opt_trait_ref(im)).map(|t| {
                self.path(t.skip_binder().def_id)
            });
            (im, tr)
        };
        let exp = tcx.def_span(d).from_expansion();
        let _ = write!(s, "{{\"path\":{},\"pub\":{},\"span\":{},\"argc\":{},\"impl\":{},\"trait\":{},\"expn\":{},",
            esc(&self.path(d)), vis, self.span(body.span), body.arg_count,
            impl_of.map(|x| esc(&x)).unwrap_or("null".into()),
            item.map(|x| esc(&x)).unwrap_or("null".into()), exp);
        let ls: Vec<_> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, "\"locals\":[{}],", ls.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(s, "\"names\":[{}],\"blocks\":[", names.join(","));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&body, &bx.0);
                        let r = self.rvalue(&body, &bx.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, self.span(x.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&body, place);
                        st.push(format!("[\"setd\",{},{}]", p, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(..) => st.push("[\"intr\"]".into()),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let vs: Vec<_> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(&body, discr), vs.join(","), targets.otherwise().as_usize(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(&body, place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(&body, func);
                    let fty = func.ty(&body.local_decls, tcx);
                    let fty = self.ty(fty);
                    let a: Vec<_> = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let at: Vec<_> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},{},[{}],[{}],{},{},{}]", f, fty, a.join(","), at.join(","),
                        self.place(&body, destination), dt,
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.operand(&body, cond), expected, m, target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                _ => "[\"unk\"]".into(),
            };
            bs.push(format!("{{\"c\":{},\"s\":[{}],\"t\":{},\"sp\":{}}}", bb.is_cleanup, st.join(","), ts, sp));
        }
        let _ = write!(s, "{}]}}", bs.join(",\n"));
        self.insts.insert(key, s);
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.found.push(format!("unsafe block at {:?}", b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let out = match std::env::var("SA_OUT") {
            Ok(o) => o,
            Err(_) => return rustc_driver_impl::Compilation::Continue,
        };
        let mut ex = Ex {
            tcx,
            types: HashMap::new(),
            type_json: vec![],
            insts: HashMap::new(),
            seen: HashSet::new(),
            queue: VecDeque::new(),
            consts_failed: 0,
        };
        let mut roots = vec![];
        let mut generic = vec![];
        let mut items = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) {
                generic.push(esc(&ex.path(d)));
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
            let inst = Instance::new_raw(d, args);
            if let Some(k) = ex.enqueue(inst) {
                roots.push(esc(&k));
            }
        }
        while let Some(i) = ex.queue.pop_front() {
            ex.export(i);
        }
        // item level facts: statics, unsafe, auto traits of public ADTs
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut uf);
        let mut statics = vec![];
        let mut unsafe_items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let freeze = tcx.type_of(d).skip_binder().is_freeze(tcx, ex.env());
                    let st = tcx.type_of(d).skip_binder();
                    let st = rustc_middle::ty::print::with_no_trimmed_paths!(st.to_string());
                    let sp = ex.span(tcx.def_span(d));
                    statics.push(format!("[{},{},{},{},{}]", esc(&ex.path(d)), mutability.is_mut(), freeze, esc(&st), sp))
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.fn_sig(d).skip_binder().skip_binder().safety().is_unsafe() {
                        unsafe_items.push(esc(&format!("unsafe fn {}", ex.path(d))));
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(d);
                    if h.safety.is_unsafe() && !tcx.def_span(d).in_derive_expansion() {
                        unsafe_items.push(esc(&format!("unsafe impl {}", ex.path(d))));
                    }
                }
                DefKind::ForeignMod => unsafe_items.push(esc(&format!("extern block {}", ex.path(d)))),
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).skip_binder();
                    let t = tcx.erase_and_anonymize_regions(t);
                    if !t.has_param() {
                        let te = ex.ty(t);
                        let env = ex.env();
                        let freeze = t.is_freeze(tcx, env);
                        let span = ex.span(tcx.def_span(d));
                        let pubv = tcx.effective_visibilities(()).is_reachable(id);
                        let (mut send, mut sync) = ("null", "null");
                        {
                            use rustc_infer::infer::TyCtxtInferExt as _;
                            use rustc_trait_selection::infer::InferCtxtExt as _;
                            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                            let pe = tcx.param_env(d);
                            let yes = |x: Option<DefId>| x.map(|x| infcx.type_implements_trait(x, [t], pe).must_apply_modulo_regions());
                            if let Some(b) = yes(tcx.get_diagnostic_item(rustc_span::sym::Send)) {
                                send = if b { "true" } else { "false" };
                            }
                            if let Some(b) = yes(tcx.lang_items().sync_trait()) {
                                sync = if b { "true" } else { "false" };
                            }
                        }
                        items.push(format!("[{},{},{},{},{},{},{}]", esc(&ex.path(d)), te, freeze, pubv, span, send, sync));
                    }
                }
                _ => {}
            }
        }
        for f in uf.found {
            unsafe_items.push(esc(&f));
        }
        let mut o = String::new();
        o.push_str("{\"crate\":");
        o.push_str(&esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()));
        let _ = write!(o, ",\"consts_failed\":{},\n\"roots\":[{}],\n\"generic\":[{}],\n\"statics\":[{}],\n\"unsafe\":[{}],\n\"adts\":[{}],\n",
            ex.consts_failed, roots.join(","), generic.join(","), statics.join(","), unsafe_items.join(","), items.join(",\n"));
        o.push_str("\"types\":[");
        o.push_str(&ex.type_json.join(",\n"));
        o.push_str("],\n\"insts\":{");
        let mut ks: Vec<_> = ex.insts.iter().collect();
        ks.sort();
        let v: Vec<_> = ks.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o.push_str(&v.join(",\n"));
        o.push_str("}}\n");
        std::fs::write(out, o).unwrap();
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    // invoked as: driver <rustc> <args..>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
