// MIR fact extractor. Injected with RUSTC_WORKSPACE_WRAPPER; writes one JSON
// file per (crate, target kind) into $MIRDUMP_OUT and then lets rustc go on.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    seen: std::collections::HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(format!("{t}"))))
    }
    fn note_adts(&mut self, t: Ty<'tcx>) {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(ad, _) = t.kind() {
                    let did = ad.did();
                    if !self.seen.insert(did) {
                        continue;
                    }
                    let p = self.path(did);
                    let mut vs = vec![];
                    let discrs: Vec<(usize, u128)> = if ad.is_enum() {
                        ad.discriminants(self.tcx).map(|(i, d)| (i.as_usize(), d.val)).collect()
                    } else {
                        vec![]
                    };
                    for (i, v) in ad.variants().iter_enumerated() {
                        let fs = arr(v.fields.iter().map(|f| {
                            let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            format!("[{},{}]", esc(f.name.as_str()), esc(&self.tystr(ft)))
                        }));
                        let dv = discrs.iter().find(|x| x.0 == i.as_usize()).map(|x| x.1.to_string()).unwrap_or("null".into());
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), dv, fs));
                    }
                    let kind = if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" };
                    let j = format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":{}}}", kind, did.is_local(), arr(vs));
                    self.adts.insert(p, j);
                }
            }
        }
    }
    // short structural type description
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_adts(t);
        match t.kind() {
            ty::Ref(_, inner, m) => format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(*inner)),
            ty::Adt(ad, args) => {
                let p = self.path(ad.did());
                let a: Vec<String> = args.types().map(|t| self.ty(t)).collect();
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&p), arr(a))
            }
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&self.path(*d))),
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"p\":{}}}", esc(&self.path(*d))),
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t)).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(a))
            }
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*e)),
            ty::Array(e, _) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*e)),
            _ => format!("{{\"k\":\"o\",\"s\":{}}}", esc(&self.tystr(t))),
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            out.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let v = match pt.variant_index {
                                Some(v) => ad.variant(v),
                                None if !ad.is_enum() => ad.non_enum_variant(),
                                None => ad.variant(rustc_abi::FIRST_VARIANT),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match pt.ty.kind() {
                        ty::Adt(ad, _) => esc(&self.path(ad.did())),
                        _ => "null".to_string(),
                    };
                    format!("[\"f\",{},{},{}]", esc(&name), f.as_usize(), owner)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(ad, _) => ad.variant(v).name.to_string(),
                        _ => format!("{v:?}"),
                    };
                    format!("[\"d\",{}]", esc(&name))
                }
                _ => "[\"?\"]".to_string(),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(out))
    }
    fn cnst(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            return format!("{{\"c\":\"fn\",{}}}", self.callee(env, *d, args.skip_binder()));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"c\":\"promoted\",\"def\":{},\"i\":{}}}", esc(&self.path(u.def)), p.as_usize());
            }
        }
        let _ = body;
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            return self.cval(v, ty);
        }
        format!("{{\"c\":\"opaque\",\"s\":{},\"ty\":{}}}", esc(&format!("{:?}", c.const_)), self.ty(ty))
    }
    fn plain(&self, ty: Ty<'tcx>) -> bool {
        // only scalars, arrays, tuples and enums / structs over them can be destructured safely
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => true,
            ty::Tuple(ts) => ts.iter().all(|t| self.plain(t)),
            ty::Array(e, _) => self.plain(*e),
            ty::Adt(ad, args) => !ad.is_union() && ad.all_fields().all(|f| self.plain(self.tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), f.ty(self.tcx, args)))),
            _ => false,
        }
    }
    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let tj = self.ty(ty);
        match v {
            ConstValue::ZeroSized => format!("{{\"c\":\"zst\",\"ty\":{tj}}}"),
            ConstValue::Scalar(s) => {
                if let Some(si) = s.try_to_scalar_int().ok() {
                    let bits = si.to_bits_unchecked();
                    let k = match ty.kind() {
                        ty::Bool => "bool",
                        ty::Char => "char",
                        ty::Int(_) => "int",
                        ty::Uint(_) => "uint",
                        _ => "scalar",
                    };
                    let mut val = bits.to_string();
                    if let ty::Int(_) = ty.kind() {
                        val = si.to_int(si.size()).to_string();
                    }
                    if k == "scalar" {
                        // field-less enum or newtype constant: destructure
                        if let Some(d) = if self.plain(ty) { tcx.try_destructure_mir_constant_for_user_output(v, ty) } else { None } {
                            let vn = match (ty.kind(), d.variant) {
                                (ty::Adt(ad, _), Some(v)) => ad.variant(v).name.to_string(),
                                _ => String::new(),
                            };
                            let fields: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t)).collect();
                            return format!("{{\"c\":\"agg\",\"variant\":{},\"fields\":{},\"ty\":{}}}", esc(&vn), arr(fields), tj);
                        }
                    }
                    format!("{{\"c\":\"{k}\",\"v\":{val},\"ty\":{tj}}}")
                } else {
                    // pointer: maybe &[u8; N] or &static
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        if let ty::Array(e, n) = inner.kind() {
                            if *e == tcx.types.u8 {
                                if let (ptr, Some(n)) = (s.to_pointer(&tcx), n.try_to_target_usize(tcx)) {
                                    if let Some(prov) = ptr.provenance {
                                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                            let (_, off) = ptr.into_raw_parts();
                                            let o = off.bytes() as usize;
                                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                            return format!("{{\"c\":\"bytes\",\"v\":{}}}", esc(&hex(b)));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    { let ptr = s.to_pointer(&tcx);
                        if let Some(prov) = ptr.provenance {
                            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                                return format!("{{\"c\":\"static\",\"p\":{},\"ty\":{}}}", esc(&self.path(d)), tj);
                            }
                        }
                    }
                    format!("{{\"c\":\"ptr\",\"ty\":{tj}}}")
                }
            }
            ConstValue::Slice { .. } => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx);
                match (ty.kind(), b) {
                    (ty::Ref(_, inner, _), Some(b)) if inner.is_str() => {
                        format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)))
                    }
                    (_, Some(b)) => format!("{{\"c\":\"bytes\",\"v\":{}}}", esc(&hex(b))),
                    _ => format!("{{\"c\":\"opaque\",\"s\":\"slice\",\"ty\":{tj}}}"),
                }
            }
            ConstValue::Indirect { .. } => {
                if let ty::Ref(_, inner, _) = ty.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                if let Some(d) = if self.plain(ty) { tcx.try_destructure_mir_constant_for_user_output(v, ty) } else { None } {
                    let vn = match (ty.kind(), d.variant) {
                        (ty::Adt(ad, _), Some(v)) => ad.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    let fields: Vec<String> = d.fields.iter().map(|(v, t)| self.cval(*v, *t)).collect();
                    return format!("{{\"c\":\"agg\",\"variant\":{},\"fields\":{},\"ty\":{}}}", esc(&vn), arr(fields), tj);
                }
                format!("{{\"c\":\"opaque\",\"s\":\"indirect\",\"ty\":{tj}}}")
            }
        }
    }
    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(body, p)),
            Operand::Constant(c) => self.cnst(body, env, c),
            _ => "{\"c\":\"rt\"}".to_string(),
        }
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => esc(&self.path(t)),
            None => "null".into(),
        };
        let self_ty = if tcx.trait_of_assoc(d).is_some() && args.len() > 0 {
            match args[0].as_type() {
                Some(t) => self.ty(t),
                None => "null".into(),
            }
        } else {
            "null".into()
        };
        let targs: Vec<String> = args.types().map(|t| self.ty(t)).collect();
        let res = match ty::Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                esc(&self.path(rd))
            }
            _ => "null".into(),
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let imp = match tcx.inherent_impl_of_assoc(d) {
            Some(i) => {
                let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                self.ty(t)
            }
            None => "null".into(),
        };
        format!(
            "\"fn\":{},\"name\":{},\"trait\":{},\"self\":{},\"res\":{},\"impl\":{},\"ta\":{}",
            esc(&p), esc(&name), tr, self_ty, res, imp, arr(targs)
        )
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut o = String::new();
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let names = names.iter().map(|(k, v)| format!("\"{k}\":{}", esc(v))).collect::<Vec<_>>().join(",");
        let _ = write!(o, "\"args\":{},\"span\":{},\"locals\":{},\"names\":{{{}}},\"blocks\":[", body.arg_count, esc(&self.span(body.span)), arr(locals), names);
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, p);
                        let rj = match r {
                            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(body, env, op)),
                            Rvalue::Repeat(op, n) => format!("[\"repeat\",{},{}]", self.operand(body, env, op), esc(&format!("{n:?}"))),
                            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, p)),
                            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
                            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(body, p)),
                            Rvalue::Cast(k, op, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(body, env, op), self.ty(*t)),
                            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", esc(&format!("{b:?}")), self.operand(body, env, &ops.0), self.operand(body, env, &ops.1)),
                            Rvalue::UnaryOp(u, op) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.operand(body, env, op)),
                            Rvalue::Discriminant(p) => {
                                let t = p.ty(body, tcx).ty;
                                format!("[\"discr\",{},{}]", self.place(body, p), self.ty(t))
                            }
                            Rvalue::Aggregate(k, ops) => {
                                let fs: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                                let head = match &**k {
                                    AggregateKind::Array(_) => "\"array\"".to_string(),
                                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                                    AggregateKind::Adt(d, v, _, _, _) => {
                                        let ad = tcx.adt_def(*d);
                                        let var = ad.variant(*v);
                                        self.note_adts(r.ty(body, tcx));
                                        let fnames: Vec<String> = var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                                        format!("{{\"adt\":{},\"v\":{},\"f\":{},\"enum\":{}}}", esc(&self.path(*d)), esc(var.name.as_str()), arr(fnames), ad.is_enum())
                                    }
                                    AggregateKind::Closure(d, _) => format!("{{\"closure\":{}}}", esc(&self.path(*d))),
                                    _ => "\"other\"".to_string(),
                                };
                                format!("[\"agg\",{},{}]", head, arr(fs))
                            }
                            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, p)),
                            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
                        };
                        st.push(format!("[{},{},{}]", pj, rj, esc(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, tcx).ty;
                        let vn = match t.kind() {
                            ty::Adt(ad, _) => ad.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        st.push(format!("[{},[\"setdiscr\",{}],\"\"]", self.place(body, place), esc(&vn)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(body, tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(body, env, discr), arr(ts), targets.otherwise().as_usize(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), self.ty(pt))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    let dty = destination.ty(body, tcx).ty;
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(body, tcx); self.ty(t) }).collect();
                    format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), self.place(body, destination), tg, self.ty(dty), arr(at))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(body, env, len), self.operand(body, env, index)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow {op:?}"), vec![self.operand(body, env, a), self.operand(body, env, b)]),
                        m => (format!("{m:?}").chars().take(40).collect(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(body, env, cond), expected, esc(&k), arr(ops), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
            };
            let _ = write!(o, "{{\"s\":{},\"t\":{},\"l\":{},\"u\":{}}}", arr(st), tj, esc(&self.span(t.source_info.span)), bb.is_cleanup);
        }
        o.push(']');
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut d = D { tcx, adts: BTreeMap::new(), seen: Default::default() };
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let kname = match kind {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                DefKind::Static { .. } => "static",
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                _ => continue,
            };
            let body: &Body<'_> = if kname == "fn" || kname == "closure" { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
            let p = d.path(did);
            let b = d.body(did, body);
            let mut promoted = vec![];
            for pb in tcx.promoted_mir(did).iter() {
                promoted.push(format!("{{{}}}", d.body(did, pb)));
            }
            // impl information
            let mut imp = "null".to_string();
            let mut tr = "null".to_string();
            let mut titem = "null".to_string();
            let mut derived = false;
            if kname == "fn" {
                if let Some(i) = tcx.impl_of_assoc(did) {
                    let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    imp = d.ty(t);
                    derived = tcx.is_automatically_derived(i);
                    if let Some(tref) = tcx.impl_opt_trait_ref(i) {
                        tr = esc(&d.path(tref.skip_binder().def_id));
                        if let Some(ti) = tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()) { titem = esc(&d.path(ti)); }
                    }
                } else if let Some(t) = tcx.trait_of_assoc(did) {
                    tr = esc(&d.path(t));
                }
            }
            let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
            let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                if tcx.effective_visibilities(()).is_reachable(did.expect_local()) { "pub" } else { "priv" }
            } else {
                ""
            };
            let args: Vec<String> = tcx.generics_of(did).own_params.iter().map(|p| esc(p.name.as_str())).collect();
            bodies.push(format!(
                "{{\"path\":{},\"name\":{},\"kind\":\"{}\",\"impl\":{},\"trait\":{},\"titem\":{},\"vis\":{},\"derived\":{},\"generics\":{},\"promoted\":{},{}}}",
                esc(&p), esc(&name), kname, imp, tr, titem, esc(vis), derived, arr(args), arr(promoted), b
            ));
        }
        // all local ADTs
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                d.note_adts(t);
            }
        }
        let adts = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let cn = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let types: Vec<String> = tcx.crate_types().iter().map(|t| format!("{t:?}")).collect();
        let j = format!("{{\"crate\":{},\"types\":{},\"bodies\":[{}],\"adts\":{{{}}}}}", esc(&cn), esc(&types.join(",")), bodies.join(",\n"), adts);
        let f = format!("{}/{}-{}.json", out, cn, types.join("_"));
        std::fs::write(&f, j).expect("write mir dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    return code;
}
