//! Dumps the type-checked, drop-elaborated MIR of the crate named by
//! HV_CRATE (with resolved callees, evaluated constants, ADT and impl tables)
//! as JSON into $HV_OUT. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::mir::{ConstValue, ProjectionElem};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
    adt_seen: HashSet<DefId>,
    ext_queue: VecDeque<DefId>,
    ext_seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn id(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        let f = match f.find("/src/") {
            Some(i) if f.contains("/repo/src/") => f[i + 1..].to_string(),
            _ => f,
        };
        format!("[{},{}]", js(&f), lo.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ix.insert(t, i);
        let s = match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("[\"prim\",{}]", js(&t.to_string()))
            }
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("[\"adt\",{},{}]", js(&self.path(def.did())), jl(&a))
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(self.tcx);
                format!("[\"array\",{},{}]", e, n.map(|n| n.to_string()).unwrap_or("null".into()))
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                format!("[\"slice\",{}]", e)
            }
            ty::RawPtr(p, m) => {
                let p = self.ty(p);
                format!("[\"ptr\",{},{}]", m.is_mut() as u8, p)
            }
            ty::Ref(_, p, m) => {
                let p = self.ty(p);
                format!("[\"ref\",{},{}]", m.is_mut() as u8, p)
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("[\"fndef\",{},{},{}]", js(&self.id(d)), js(&self.path(d)), jl(&a))
            }
            ty::FnPtr(..) => format!("[\"fnptr\",{}]", js(&with_no_trimmed_paths!(t.to_string()))),
            ty::Closure(d, args) => {
                let a: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("[\"closure\",{},{}]", js(&self.id(d)), jl(&a))
            }
            ty::Coroutine(d, _) => format!("[\"coroutine\",{}]", js(&self.id(d))),
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("[\"tuple\",{}]", jl(&a))
            }
            ty::Param(p) => format!("[\"param\",{},{}]", js(p.name.as_str()), p.index),
            ty::Dynamic(preds, _) => {
                let n = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("[\"dyn\",{}]", js(&n))
            }
            _ => format!("[\"other\",{}]", js(&with_no_trimmed_paths!(t.to_string()))),
        };
        self.types[i] = s;
        i
    }

    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d) {
            self.adts.push(d);
        }
    }

    fn adt_json(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, x)| x.val).collect()
        } else {
            vec![0]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                let t = self.ty(t);
                let vis = if f.vis.is_public() { "pub" } else { "priv" };
                fs.push(format!("[{},{},{}]", js(f.name.as_str()), t, js(vis)));
            }
            let dv = discrs.get(vi.as_usize()).copied().unwrap_or(0);
            vs.push(format!("[{},{},{}]", js(v.name.as_str()), dv, jl(&fs)));
        }
        let g: Vec<String> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| js(p.name.as_str()))
            .collect();
        format!(
            "{{\"path\":{},\"kind\":{},\"local\":{},\"variants\":{},\"generics\":{},\"drop\":{},\"span\":{}}}",
            js(&self.path(d)),
            js(kind),
            d.is_local(),
            jl(&vs),
            jl(&g),
            def.destructor(tcx).map(|x| js(&self.id(x.did))).unwrap_or("null".into()),
            self.span(tcx.def_span(d))
        )
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> String {
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(def.did());
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if v.as_usize() < def.variants().len() {
                                let vd = def.variant(v);
                                vd.fields.get(f).map(|f| f.name.to_string()).unwrap_or_default()
                            } else {
                                String::new()
                            }
                        }
                        _ => String::new(),
                    };
                    format!("[\"f\",{},{}]", f.as_usize(), js(&name))
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match (*pt.ty.kind(), n) {
                        (_, Some(n)) => n.to_string(),
                        (ty::Adt(def, _), None) => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    format!("[\"v\",{},{}]", v.as_usize(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                _ => "\"cast\"".to_string(),
            };
            pr.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), jl(&pr))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut s = format!(
            "{{\"id\":{},\"n\":{},\"args\":{},\"local\":{}",
            js(&self.id(d)),
            js(&self.path(d)),
            jl(&a),
            d.is_local()
        );
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", js(&self.path(t)));
        }
        let _ = write!(s, ",\"name\":{}", js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()));
        if tcx.trait_of_assoc(d).is_some() {
            let eargs = tcx.erase_and_anonymize_regions(args);
            let res = ty::Instance::try_resolve(tcx, env, d, eargs);
            if let Ok(Some(inst)) = res {
                let rd = inst.def_id();
                let is_item = matches!(inst.def, ty::InstanceKind::Item(_));
                if rd != d && is_item {
                    let ra: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
                    let _ = write!(
                        s,
                        ",\"res\":{{\"id\":{},\"n\":{},\"args\":{},\"local\":{}}}",
                        js(&self.id(rd)),
                        js(&self.path(rd)),
                        jl(&ra),
                        rd.is_local()
                    );
                    self.ext(rd);
                } else if is_item {
                    // provided method of the trait itself
                    s.push_str(",\"dflt\":true");
                    self.ext(rd);
                }
                if matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                    s.push_str(",\"virtual\":true");
                }
            }
        } else {
            self.ext(d);
        }
        s.push('}');
        s
    }

    fn ext(&mut self, d: DefId) {
        if d.is_local() || self.ext_seen.contains(&d) {
            return;
        }
        let k = self.tcx.crate_name(d.krate).to_string();
        if !matches!(k.as_str(), "core" | "alloc" | "std" | "http") {
            return;
        }
        let id = self.id(d);
        const PFX: &[&str] = &[
            "core::option", "core::result", "core::task::poll", "core::ops::control_flow", "core::pin",
                "core::convert", "core::bool", "core::cmp", "http::status", "http::version",
        ];
        if PFX.iter().any(|p| id.starts_with(p)) {
            self.ext_seen.insert(d);
            self.ext_queue.push_back(d);
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 {
            return "[\"opaque\"]".into();
        }
        let t = if let ty::Pat(b, _) = *t.kind() { b } else { t };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    let val: String = if let ty::Int(_) = t.kind() {
                        si.size().sign_extend(bits).to_string()
                    } else {
                        bits.to_string()
                    };
                    return format!("[\"int\",{},{}]", val, js(&t.to_string()));
                }
            }
            ty::FnDef(d, args) => {
                let c = self.callee(d, args.skip_binder(), ty::TypingEnv::fully_monomorphized());
                return format!("[\"fn\",{}]", c);
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("[\"str\",{}]", js(&String::from_utf8_lossy(b)));
                    }
                } else if let ty::Slice(e) = *inner.kind() {
                    if e == tcx.types.u8 {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("[\"bytes\",{}]", jl(&bs));
                        }
                    }
                } else if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    match tcx.try_get_global_alloc(aid) {
                        Some(mir::interpret::GlobalAlloc::Memory(_)) if !inner.has_param() => {
                            let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            let r = self.cval(iv, inner, depth + 1);
                            return format!("[\"ref\",{}]", r);
                        }
                        Some(mir::interpret::GlobalAlloc::Static(d)) => {
                            return format!("[\"static\",{}]", js(&self.path(d)));
                        }
                        _ => {}
                    }
                }
            }
            ty::Array(e, n) => {
                if n.try_to_target_usize(tcx).map(|n| n <= 600).unwrap_or(false) {
                    if let Some(d) = self.destructure(v, t) {
                        let fs: Vec<String> = d.1.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        let _ = e;
                        return format!("[\"array\",{}]", jl(&fs));
                    }
                }
            }
            ty::Tuple(ts) => {
                if ts.is_empty() {
                    return "[\"tuple\",[]]".into();
                }
                if let Some(d) = self.destructure(v, t) {
                    let fs: Vec<String> = d.1.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return format!("[\"tuple\",{}]", jl(&fs));
                }
            }
            ty::Adt(def, _) if !def.is_union() && !t.has_param() => {
                self.adt(def.did());
                if let Some((vi, fs)) = self.destructure(v, t) {
                    if self.path(def.did()) == "bytes::Bytes" && fs.len() == 4 {
                        if let (Some(mir::interpret::Scalar::Ptr(p, _)), Some(n)) = (fs[0].0.try_to_scalar(), fs[1].0.try_to_target_usize(tcx)) {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let Some(mir::interpret::GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                let o = off.bytes_usize();
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                                let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                return format!("[\"adt\",\"bytes::Bytes\",0,\"Bytes\",[[\"bytes\",{}]]]", jl(&bs));
                            }
                        }
                    }
                    let vi = vi.unwrap_or(rustc_abi::FIRST_VARIANT);
                    let fs: Vec<String> = fs.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return format!(
                        "[\"adt\",{},{},{},{}]",
                        js(&self.path(def.did())),
                        vi.as_usize(),
                        js(def.variant(vi).name.as_str()),
                        jl(&fs)
                    );
                }
            }
            _ => {}
        }
        if let ConstValue::ZeroSized = v {
            if let ty::Closure(d, _) = *t.kind() {
                return format!("[\"closure\",{}]", js(&self.id(d)));
            }
            return "[\"zst\"]".into();
        }
        format!("[\"opaque\",{}]", js(&format!("{:?} : {:?}", v, t)))
    }

    fn destructure(
        &self,
        v: ConstValue,
        t: Ty<'tcx>,
    ) -> Option<(Option<rustc_abi::VariantIdx>, Vec<(ConstValue, Ty<'tcx>)>)> {
        let tcx = self.tcx;
        if let ty::Adt(d, _) = t.kind() {
            if d.variants().is_empty() {
                return None;
            }
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        Some((d.variant, d.fields.to_vec()))
    }

    fn constant(&mut self, c: mir::Const<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let s = self.callee(d, args.skip_binder(), env);
            return format!("[\"fn\",{}]", s);
        }
        let mut name = String::new();
        let mut promoted = None;
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                promoted = Some((self.id(u.def), p.as_usize()));
            } else {
                name = self.path(u.def);
                if tcx.def_kind(u.def) == DefKind::AssocConst {
                    if let Some(tr) = tcx.trait_of_assoc(u.def) {
                        let a: Vec<String> = u.args.types().map(|x| self.ty(x).to_string()).collect();
                        name = format!("{}", name);
                        let r = c.eval(tcx, env, rustc_span::DUMMY_SP);
                        if r.is_err() {
                            return format!(
                                "[\"assoc\",{},{},{}]",
                                js(&self.path(tr)),
                                js(tcx.item_name(u.def).as_str()),
                                jl(&a)
                            );
                        }
                    }
                }
            }
        }
        let ti = self.ty(t);
        match c.eval(tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let s = self.cval(v, t, 0);
                if s.contains("opaque") {
                    if let Some((d, p)) = promoted {
                        return format!("[\"promoted\",{},{}]", js(&d), p);
                    }
                }
                if name.is_empty() {
                    s
                } else {
                    format!("[\"named\",{},{},{}]", js(&name), s, ti)
                }
            }
            Err(_) => {
                if let Some((d, p)) = promoted {
                    format!("[\"promoted\",{},{}]", js(&d), p)
                } else {
                    format!("[\"uneval\",{},{}]", js(&name), ti)
                }
            }
        }
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, *p)),
            mir::Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, *p)),
            mir::Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                format!("[\"k\",{},{}]", self.constant(c.const_, env), t)
            }
            _ => "[\"k\",[\"int\",0,\"bool\"],null]".into(),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        use mir::Rvalue::*;
        let tcx = self.tcx;
        match r {
            Use(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, o, env), n)
            }
            Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m as u8, self.place(body, *p))
            }
            Reborrow(_, m, p) => format!("[\"use\",[\"cp\",{}],{}]", self.place(body, *p), m.is_mut() as u8),
            ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            RawPtr(k, p) => {
                let m = matches!(k, mir::RawPtrKind::Mut);
                format!("[\"raw\",{},{}]", m as u8, self.place(body, *p))
            }
            Cast(k, o, t) => {
                let kn = format!("{:?}", k);
                let kn = kn.split('(').next().unwrap().to_string();
                let full = format!("{:?}", k);
                let src = o.ty(&body.local_decls, tcx);
                let src = self.ty(src);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{},{},{}]", js(&kn), self.operand(body, o, env), t, src, js(&full))
            }
            BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{:?}", op)),
                self.operand(body, &ab.0, env),
                self.operand(body, &ab.1, env)
            ),
            UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(body, a, env))
            }
            Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let a = match *t.kind() {
                    ty::Adt(d, _) => {
                        self.adt(d.did());
                        js(&self.path(d.did()))
                    }
                    _ => "null".into(),
                };
                format!("[\"discr\",{},{}]", self.place(body, *p), a)
            }
            Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let kind = match **k {
                    mir::AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    mir::AggregateKind::Adt(d, v, args, _, act) => {
                        self.adt(d);
                        let def = tcx.adt_def(d);
                        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                        format!(
                            "[\"adt\",{},{},{},{},{}]",
                            js(&self.path(d)),
                            v.as_usize(),
                            js(def.variant(v).name.as_str()),
                            act.map(|x| x.as_usize().to_string()).unwrap_or("null".into()),
                            jl(&a)
                        )
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                        format!("[\"closure\",{},{}]", js(&self.id(d)), jl(&a))
                    }
                    mir::AggregateKind::Coroutine(d, _) => format!("[\"coroutine\",{}]", js(&self.id(d))),
                    mir::AggregateKind::CoroutineClosure(d, _) => format!("[\"coroutine\",{}]", js(&self.id(d))),
                    mir::AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, jl(&fs))
            }
            CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, *p)),
            WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
        }
    }

    fn body(&mut self, d: DefId, body: &mir::Body<'tcx>, prom: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let ps = self.place(body, p);
                    dbg.push(format!("[{},{}]", js(v.name.as_str()), ps));
                }
            }
        }
        let mut locals = vec![];
        for (l, ld) in body.local_decls.iter_enumerated() {
            let t = self.ty(ld.ty);
            let n = names.get(&l.as_usize()).map(|s| js(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(body, &b.1, env);
                        format!("[\"=\",{},{},{}]", p, r, self.span(s.source_info.span))
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), self.span(s.source_info.span))
                    }
                    mir::StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    mir::StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    _ => continue,
                };
                st.push(x);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let term = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ts: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dti = self.ty(dt);
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(body, discr, env),
                        dti,
                        jl(&ts),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                mir::TerminatorKind::Return => format!("[\"return\",{}]", sp),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(body, *place),
                        pt,
                        target.as_usize(),
                        uw(unwind),
                        sp
                    )
                }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let f = match func {
                        mir::Operand::Constant(c) => match *c.const_.ty().kind() {
                            ty::FnDef(fd, fa) => self.callee(fd, fa.skip_binder(), env),
                            _ => format!("{{\"op\":{}}}", self.operand(body, func, env)),
                        },
                        _ => format!("{{\"op\":{}}}", self.operand(body, func, env)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    let dp = self.place(body, *destination);
                    let fs = self.span(*fn_span);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        jl(&a),
                        dp,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        uw(unwind),
                        fs
                    )
                }
                mir::TerminatorKind::TailCall { .. } => "[\"unreachable\"]".into(),
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let k = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(body, len, env),
                            self.operand(body, index, env)
                        ),
                        _ => format!("[\"msg\",{}]", js(&m)),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(body, cond, env),
                        expected,
                        target.as_usize(),
                        k,
                        sp
                    )
                }
                mir::TerminatorKind::Yield { resume, .. } => format!("[\"goto\",{}]", resume.as_usize()),
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"unreachable\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", jl(&st), term, bb.is_cleanup as u8));
        }
        let kind = tcx.def_kind(d);
        let mut extra = String::new();
        // generics, in order with parents
        let mut gens = vec![];
        let idargs = ty::GenericArgs::identity_for_item(tcx, d);
        for t in idargs.types() {
            gens.push(self.ty(t).to_string());
        }
        let _ = write!(extra, ",\"gens\":{}", jl(&gens));
        if let Some(p) = prom {
            let _ = write!(extra, ",\"promoted\":{}", p);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d).is_public();
            let _ = write!(extra, ",\"pub\":{}", vis);
            if let Some(l) = d.as_local() {
                let reach = tcx.effective_visibilities(()).is_reachable(l);
                let _ = write!(extra, ",\"reach\":{}", reach);
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_binder();
            let _ = write!(extra, ",\"unsafe\":{},\"abi\":{}", sig.safety().is_unsafe(), js(&format!("{:?}", sig.abi())));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let st = self.ty(st);
            let _ = write!(extra, ",\"self\":{}", st);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_normalization();
                let _ = write!(extra, ",\"trait\":{}", js(&self.path(tr.def_id)));
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"intrait\":{}", js(&self.path(t)));
        }
        if tcx.is_closure_like(d) {
            let root = tcx.typeck_root_def_id(d);
            let _ = write!(extra, ",\"root\":{},\"parent\":{}", js(&self.id(root)), js(&self.id(tcx.parent(d))));
        }
        if body.coroutine.is_some() || tcx.is_coroutine(d) {
            extra.push_str(",\"coroutine\":true");
        }
        format!(
            "{{\"id\":{},\"n\":{},\"name\":{},\"kind\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"dbg\":{},\"blocks\":{},\"span\":{},\"local\":{}{}}}",
            js(&self.id(d)),
            js(&self.path(d)),
            js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()),
            js(&format!("{:?}", kind)),
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            jl(&locals),
            jl(&dbg),
            jl(&blocks),
            self.span(tcx.def_span(d)),
            d.is_local(),
            extra
        )
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ix: HashMap::new(),
        adts: vec![],
        adt_seen: HashSet::new(),
        ext_queue: VecDeque::new(),
        ext_seen: HashSet::new(),
    };
    let mut fns = vec![];
    let mut consts = vec![];
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(d);
                fns.push(cx.body(d, body, None));
                for (p, b) in tcx.promoted_mir(d).iter_enumerated() {
                    fns.push(cx.body(d, b, Some(p.as_usize())));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                if let Ok(v) = tcx.const_eval_poly(d) {
                    let s = cx.cval(v, t, 0);
                    let sp = cx.span(tcx.def_span(d));
                    let imp = tcx
                        .impl_of_assoc(d)
                        .map(|im| {
                            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                            cx.ty(st).to_string()
                        })
                        .unwrap_or("null".into());
                    consts.push(format!("[{},{},{},{}]", js(&cx.path(d)), s, sp, imp));
                }
            }
            DefKind::Static { mutability: rustc_hir::Mutability::Not, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                if !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) && !matches!(t.kind(), ty::Array(..) | ty::Ref(..)) {
                    continue;
                }
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    let mut a2 = a.inner().clone();
                    a2.mutability = rustc_hir::Mutability::Not;
                    let id = tcx.reserve_and_set_memory_alloc(tcx.mk_const_alloc(a2));
                    let v = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO };
                    let s = cx.cval(v, t, 0);
                    let sp = cx.span(tcx.def_span(d));
                    consts.push(format!("[{},{},{},null]", js(&format!("static {}", cx.path(d))), s, sp));
                }
            }
            _ => {}
        }
    }
    while let Some(d) = cx.ext_queue.pop_front() {
        if !tcx.is_mir_available(d) || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let b = cx.body(d, body, None);
        fns.push(b);
        for (p, b) in tcx.promoted_mir(d).iter_enumerated() {
            let b = cx.body(d, b, Some(p.as_usize()));
            fns.push(b);
        }
    }
    let mut impls = vec![];
    for (tr, ims) in tcx.all_local_trait_impls(()) {
        for im in ims {
            let im = im.to_def_id();
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let st = cx.ty(st);
            let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_normalization();
            let ta: Vec<String> = trr.args.types().map(|x| cx.ty(x).to_string()).collect();
            let mut items = vec![];
            for a in tcx.associated_items(im).in_definition_order() {
                if let ty::AssocKind::Type { .. } = a.kind {
                    let t = tcx.type_of(a.def_id).instantiate_identity().skip_normalization();
                    let t = cx.ty(t);
                    items.push(format!("[{},{},{}]", js(a.name().as_str()), js("type"), t));
                } else {
                    items.push(format!("[{},{},{}]", js(a.name().as_str()), js("item"), js(&cx.id(a.def_id))));
                }
            }
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"targs\":{},\"items\":{},\"span\":{},\"neg\":{},\"unsafe\":{}}}",
                js(&cx.path(*tr)),
                st,
                jl(&ta),
                jl(&items),
                cx.span(tcx.def_span(im)),
                matches!(tcx.impl_polarity(im), ty::ImplPolarity::Negative),
                tcx.impl_trait_header(im).safety.is_unsafe(),
            ));
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    while i < cx.adts.len() {
        let d = cx.adts[i];
        i += 1;
        // only expand: local, http*, std enums, h2, httparse, bytes
        let s = cx.adt_json(d);
        adts.push(s);
        if i > 4000 {
            break;
        }
    }
    let j = format!(
        "{{\"crate\":{},\"types\":{},\"adts\":{},\"impls\":{},\"consts\":{},\"fns\":[\n{}\n]}}",
        js(tcx.crate_name(LOCAL_CRATE).as_str()),
        jl(&cx.types),
        jl(&adts),
        jl(&impls),
        jl(&consts),
        fns.join(",\n")
    );
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, j).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let want = std::env::var("HV_CRATE").unwrap_or_else(|_| "hyper".into());
    let out = std::env::var("HV_OUT").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    let is_test = args.iter().any(|a| a == "--test");
    if is && !is_test && !out.is_empty() {
        for f in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off", "--cap-lints=allow"] {
            args.push(f.into());
        }
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }));
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
