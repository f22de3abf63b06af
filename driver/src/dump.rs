//! Serialises the type-checked program.
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String { format!("[{}]", v.join(",")) }

/// Crates whose function bodies are also dumped when local code (transitively) calls them.
const DESCEND: &[&str] = &["core", "alloc", "num_traits", "num_complex"];
const NO_DESCEND: &[&str] = &["core::fmt", "core::panicking", "core::panic", "core::num::flt2dec", "core::str", "core::unicode",
    "core::char", "core::slice::sort", "core::num::imp", "core::f32", "core::f64", "core::intrinsics", "alloc::alloc", "alloc::raw_vec", "alloc::fmt",
    "alloc::str", "alloc::string", "alloc::vec", "core::ascii"];

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    paths: HashMap<DefId, String>,
    insts: HashMap<(InstanceKind<'tcx>, GenericArgsRef<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, Option<DefId>, TypingEnv<'tcx>)>,
}

impl<'tcx> D<'tcx> {
    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) { return p.clone(); }
        let tcx = self.tcx;
        let p = with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d)));
        self.paths.insert(d, p.clone());
        p
    }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        esc(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    /// Innermost (macro definition site) line.
    fn ispan(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        esc(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn is_plain(&self, d: DefId) -> bool {
        let k = self.krate(d);
        matches!(k.as_str(), "mixed_num" | "core" | "num_complex" | "num_traits" | "alloc")
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let tcx = self.tcx;
        let s = match *t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(k) => format!("[\"int\",\"{}\"]", k.name_str()),
            ty::Uint(k) => format!("[\"int\",\"{}\"]", k.name_str()),
            ty::Float(k) => format!("[\"float\",\"{}\"]", k.name_str()),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            ty::Array(e, n) => {
                let n = match n.try_to_target_usize(tcx) { Some(v) => v.to_string(), None => "null".into() };
                format!("[\"array\",{},{}]", self.ty(e), n)
            }
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
            ty::RawPtr(e, m) => format!("[\"ptr\",{},{}]", m.is_mut(), self.ty(e)),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", m.is_mut(), self.ty(e)),
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("[\"tuple\",{}]", list(&v)) }
            ty::FnDef(d, args) => {
                let a = self.args(args.skip_binder());
                format!("[\"fndef\",{},{}]", esc(&self.path(d)), a)
            }
            ty::Closure(d, args) => {
                let a = self.args(args);
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("[\"closure\",{},{},{}]", esc(&self.path(d)), a, list(&up))
            }
            ty::Adt(def, args) => {
                let a = self.args(args);
                let p = self.path(def.did());
                let mut vs = vec![];
                if self.is_plain(def.did()) && !p.starts_with("core::fmt") && (def.is_struct() || def.is_enum()) && def.variants().len() < 40 {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                        }
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                        vs.push(format!("[{},\"{}\",{}]", esc(v.name.as_str()), d, list(&fs)));
                    }
                }
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                format!("[\"adt\",{},{},\"{}\",{}]", esc(&p), a, k, list(&vs))
            }
            ty::Alias(..) => format!("[\"alias\",{}]", esc(&with_no_trimmed_paths!(t.to_string()))),
            ty::Dynamic(..) => format!("[\"dyn\",{}]", esc(&with_no_trimmed_paths!(t.to_string()))),
            _ => format!("[\"other\",{}]", esc(&with_no_trimmed_paths!(t.to_string()))),
        };
        self.types[i] = s;
        i
    }
    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(self.ty(t).to_string()); }
            else if let Some(c) = a.as_const() { v.push(esc(&with_no_trimmed_paths!(c.to_string()))); }
        }
        list(&v)
    }

    fn want(&mut self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let k = self.krate(d);
        if !DESCEND.contains(&k.as_str()) { return false; }
        let p = self.path(d);
        let p = p.trim_start_matches('<').to_string();
        if NO_DESCEND.iter().any(|x| p.starts_with(x)) { return false; }
        // a trait impl method of an excluded module
        let full = self.tcx.def_path(d).to_string_no_crate_verbose();
        let full = format!("{}{}", k, full);
        if NO_DESCEND.iter().any(|x| full.starts_with(x)) { return false; }
        self.tcx.is_mir_available(d)
    }

    fn inst(&mut self, inst: Instance<'tcx>, root: Option<DefId>, env: TypingEnv<'tcx>) -> usize {
        let root = if inst.args.has_param() { root } else { None };
        let env = if root.is_some() { env } else { TypingEnv::fully_monomorphized() };
        let key = (inst.def, inst.args, root);
        if let Some(i) = self.insts.get(&key) { return *i; }
        let i = self.insts.len();
        self.insts.insert(key, i);
        self.queue.push_back((i, inst, root, env));
        i
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local.as_usize()); }
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                _ => "[\"other\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>, cx: &Cx<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, c.span, cx)),
            #[allow(unreachable_patterns)]
            _ => format!("[\"rt\",{}]", esc(&format!("{:?}", o))),
        }
    }

    /// {ty, v, path?}
    fn konst(&mut self, c: &Const<'tcx>, span: Span, cx: &Cx<'tcx>) -> String {
        let tcx = self.tcx;
        let ty = c.ty();
        let t = self.ty(ty);
        let mut extra = String::new();
        if let Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                return format!("{{\"t\":{},\"v\":[\"promoted\",{},{}]}}", t, p.as_usize(), cx.key);
            }
            let p = self.path(uv.def);
            let a = self.args(uv.args);
            let tr = match tcx.opt_associated_item(uv.def) { Some(_) => match tcx.trait_of_assoc(uv.def) { Some(tr) => esc(&self.path(tr)), None => "null".into() }, None => "null".into() };
            extra = format!(",\"path\":{},\"pargs\":{},\"ptrait\":{},\"pcrate\":{}", esc(&p), a, tr, esc(&self.krate(uv.def)));
        }
        if let Const::Ty(_, ct) = c {
            extra = format!(",\"cst\":{}", esc(&with_no_trimmed_paths!(ct.to_string())));
        }
        let v = if let ty::FnDef(..) = ty.kind() { "[\"fn\"]".to_string() } else {
            match c.eval(tcx, cx.env, span) {
                Ok(cv) => self.cval(cv, ty, cx.env, 0),
                Err(_) => "[\"uneval\"]".to_string(),
            }
        };
        format!("{{\"t\":{},\"v\":{}{}}}", t, v, extra)
    }

    fn scalar_bits(&mut self, bits: u128, ty: Ty<'tcx>) -> Option<String> {
        Some(match ty.kind() {
            ty::Bool => format!("[\"bool\",{}]", bits != 0),
            ty::Char => format!("[\"char\",{}]", bits),
            ty::Uint(_) => format!("[\"int\",\"{}\"]", bits),
            ty::Int(k) => {
                let w = k.normalize(64).bit_width().unwrap() as u32;
                let s = ((bits << (128 - w)) as i128) >> (128 - w);
                format!("[\"int\",\"{}\"]", s)
            }
            ty::Float(ty::FloatTy::F32) => format!("[\"float\",\"{:e}\",\"{}\"]", f32::from_bits(bits as u32), bits),
            ty::Float(ty::FloatTy::F64) => format!("[\"float\",\"{:e}\",\"{}\"]", f64::from_bits(bits as u64), bits),
            _ => return None,
        })
    }

    fn cval(&mut self, cv: ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 { return "[\"deep\"]".into(); }
        match cv {
            ConstValue::ZeroSized => "[\"zst\"]".into(),
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                    return Self::bytes(&b, ty);
                }
                "[\"slice?\"]".into()
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                if let Some(s) = self.scalar_bits(bits, ty) { return s; }
                // newtype structs / fieldless enums: expose raw bits and the destructured form
                let d = self.destructure(cv, ty, env, depth);
                format!("[\"bits\",\"{}\",{},{}]", bits, i.size().bytes(), d)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        let path = esc(&self.path(d));
                        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let frozen = st.is_freeze(tcx, TypingEnv::fully_monomorphized());
                        if tcx.is_mutable_static(d) || !frozen || !d.is_local() || tcx.is_thread_local_static(d) {
                            return format!("[\"static\",{},true]", path);
                        }
                        match tcx.eval_static_initializer(d) {
                            Ok(a) => {
                                let id = tcx.reserve_and_set_memory_alloc(a);
                                let icv = ConstValue::Indirect { alloc_id: id, offset: off };
                                let inner = match ty.kind() { ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t, _ => st };
                                let v = self.icval(icv, inner, env, depth + 1);
                                format!("[\"static\",{},false,{}]", path, v)
                            }
                            Err(_) => format!("[\"static\",{},true]", path),
                        }
                    }
                    GlobalAlloc::Function { instance } => format!("[\"fnptr\",{}]", esc(&self.path(instance.def_id()))),
                    GlobalAlloc::VTable(..) => "[\"vtable\"]".into(),
                    GlobalAlloc::Memory(m) => {
                        let inner = match ty.kind() { ty::Ref(_, t, _) | ty::RawPtr(t, _) => *t, _ => return "[\"ptr?\"]".into() };
                        if let ty::Array(e, n) = inner.kind() {
                            if *e == tcx.types.u8 {
                                let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                let o = off.bytes() as usize;
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec();
                                return Self::bytes(&b, ty);
                            }
                        }
                        let icv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        format!("[\"refto\",{}]", self.icval(icv, inner, env, depth + 1))
                    }
                    _ => "[\"ptr?\"]".into(),
                }
            }
            ConstValue::Indirect { .. } => self.icval(cv, ty, env, depth),
        }
    }

    fn icval(&mut self, cv: ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                if ty.is_scalar() || ty.is_ref() {
                    if let Ok(l) = tcx.layout_of(env.as_query_input(ty)) {
                        if l.is_sized() && (ty.is_integral() || ty.is_floating_point() || ty.is_bool() || ty.is_char()) {
                            if let Ok(s) = m.inner().read_scalar(&tcx, AllocRange { start: offset, size: l.size }, false) {
                                return self.cval(ConstValue::Scalar(s), ty, env, depth + 1);
                            }
                        }
                        if let ty::Ref(_, inner, _) = ty.kind() {
                            if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                                let ps = tcx.data_layout.pointer_size();
                                let p = m.inner().read_scalar(&tcx, AllocRange { start: offset, size: ps }, true);
                                let n = m.inner().read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false);
                                if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(n))) = (p, n) {
                                    let (prov, off) = p.into_raw_parts();
                                    let n = n.to_bits(n.size()) as usize;
                                    if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                                        if let GlobalAlloc::Memory(mm) = tcx.global_alloc(prov.alloc_id()) {
                                            let o = off.bytes() as usize;
                                            let b = mm.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec();
                                            return Self::bytes(&b, ty);
                                        }
                                    }
                                }
                                return "[\"slice?\"]".into();
                            }
                            if let Ok(s) = m.inner().read_scalar(&tcx, AllocRange { start: offset, size: l.size }, true) {
                                return self.cval(ConstValue::Scalar(s), ty, env, depth + 1);
                            }
                        }
                    }
                }
            }
        }
        self.destructure(cv, ty, env, depth)
    }

    fn destructure(&mut self, cv: ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if ty.has_param() { return "[\"opaque\"]".into(); }
        match ty.kind() {
            ty::Array(..) | ty::Tuple(..) => {}
            ty::Adt(d, _) if !d.is_union() => {}
            _ => return "[\"opaque\"]".into(),
        }
        let _ = env;
        match tcx.try_destructure_mir_constant_for_user_output(cv, ty) {
            Some(d) => {
                let fs: Vec<String> = d.fields.iter().map(|(v, t)| { let x = self.cval(*v, *t, env, depth + 1); format!("[{},{}]", self.ty(*t), x) }).collect();
                format!("[\"agg\",{},{}]", d.variant.map(|v| v.as_usize()).unwrap_or(0), list(&fs))
            }
            None => "[\"opaque\"]".into(),
        }
    }

    fn bytes(b: &[u8], ty: Ty<'tcx>) -> String {
        let is_str = match ty.kind() { ty::Ref(_, t, _) => t.is_str(), _ => false };
        if is_str {
            if let Ok(s) = std::str::from_utf8(b) { return format!("[\"str\",{}]", esc(s)); }
        }
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        format!("[\"bytes\",{}]", list(&v))
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, cx: &Cx<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, cx)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, cx), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                if let Operand::Constant(c) = o { self.reach(c.const_.ty(), cx); }
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, cx), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(&ops.0, cx), self.operand(&ops.1, cx)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, cx)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, cx)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.as_usize(), f.map(|f: FieldIdx| f.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        self.reach(t, cx);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, list(&v))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    // a function item or closure made into a value: its body belongs to the dump even if no call names it
    fn reach(&mut self, t: Ty<'tcx>, cx: &Cx<'tcx>) {
        let (d, a) = match t.kind() {
            ty::FnDef(d0, a0) => ((*d0).into(), a0.skip_binder()),
            ty::Closure(d, a) => (*d, *a),
            _ => return,
        };
        let a = self.tcx.erase_and_anonymize_regions(a);
        let a = self.tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(a)).unwrap_or(a);
        self.callee_of(d, a, cx);
    }

    fn callee(&mut self, f: &Operand<'tcx>, cx: &Cx<'tcx>) -> String {
        let tcx = self.tcx;
        if let Operand::Constant(c) = f {
            if let ty::FnDef(d0, a0) = c.const_.ty().kind() {
                let did: DefId = (*d0).into();
                let args = tcx.erase_and_anonymize_regions(a0.skip_binder());
                let args = tcx.try_normalize_erasing_regions(cx.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
                return self.callee_of(did, args, cx);
            }
        }
        format!("{{\"ind\":{}}}", self.operand(f, cx))
    }

    fn callee_of(&mut self, did: DefId, args: GenericArgsRef<'tcx>, cx: &Cx<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(did);
        let a = self.args(args);
        let (tr, selfty) = match tcx.trait_of_assoc(did) {
            Some(t) => (esc(&self.path(t)), self.ty(args.type_at(0)).to_string()),
            None => ("null".into(), "null".into()),
        };
        let is_ctor = matches!(tcx.def_kind(did), DefKind::Ctor(..));
        let sig_unsafe = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let mut res = "null".to_string();
        let r = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure => Instance::try_resolve(tcx, cx.env, did, args).ok().flatten(),
            _ => None,
        };
        if let Some(inst) = r {
            let rp = self.path(inst.def_id());
            let kd = self.krate(inst.def_id());
            let (kind, key) = match inst.def {
                InstanceKind::Item(d) => {
                    if !is_ctor && self.want(d) { ("item", self.inst(inst, cx.root, cx.env).to_string()) } else { ("item", "null".to_string()) }
                }
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => ("intrinsic", "null".into()),
                InstanceKind::Virtual(..) => ("virtual", "null".into()),
                _ => ("shim", self.inst(inst, cx.root, cx.env).to_string()),
            };
            let ra = self.args(inst.args);
            let impl_of = match tcx.impl_of_assoc(inst.def_id()) {
                Some(i) => self.ty(tcx.type_of(i).instantiate(tcx, inst.args).skip_norm_wip()).to_string(),
                None => "null".into(),
            };
            res = format!("{{\"path\":{},\"crate\":{},\"kind\":\"{}\",\"key\":{},\"args\":{},\"impl_self\":{}}}", esc(&rp), esc(&kd), kind, key, ra, impl_of);
        }
        format!("{{\"path\":{},\"crate\":{},\"name\":{},\"trait\":{},\"self\":{},\"args\":{},\"ctor\":{},\"unsafe\":{},\"res\":{}}}",
            esc(&p), esc(&self.krate(did)), esc(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default().as_str()), tr, selfty, a, is_ctor, sig_unsafe, res)
    }

    fn body(&mut self, b: &Body<'tcx>, cx: &Cx<'tcx>) -> String {
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                let sp = self.ispan(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => { let x = format!("[\"=\",{},{},{}]", self.place(&a.0), self.rvalue(&a.1, cx), sp); ss.push(x); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let x = format!("[\"sd\",{},{},{}]", self.place(place), variant_index.as_usize(), sp); ss.push(x); }
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), sp)),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.ispan(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, cx), self.ty(dt), list(&v), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let nd = pt.needs_drop(self.tcx, cx.env);
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_usize(), self.ty(pt), nd)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let v: Vec<String> = args.iter().map(|o| self.operand(&o.node, cx)).collect();
                    format!("[\"call\",{},{},{},{}]", self.callee(func, cx), list(&v), self.place(destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let v: Vec<String> = args.iter().map(|o| self.operand(&o.node, cx)).collect();
                    format!("[\"tailcall\",{},{}]", self.callee(func, cx), list(&v))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    let m = m.split('{').next().unwrap_or("").chars().take(60).collect::<String>();
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, cx), expected, esc(&m), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => format!("[\"other\",{}]", esc(&format!("{:?}", t.kind))),
            };
            blocks.push(format!("{{\"c\":{},\"s\":{},\"t\":{},\"l\":{}}}", bb.is_cleanup, list(&ss), tt, sp));
        }
        format!("\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{}", list(&locals), b.arg_count,
            b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), list(&blocks))
    }

    fn preds(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        let ps = tcx.clauses_of(d).instantiate_identity(tcx);
        for p in ps.clauses.iter() {
            let p = p.skip_norm_wip();
            match p.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => {
                    let a = self.args(t.trait_ref.args);
                    v.push(format!("[\"trait\",{},{}]", esc(&self.path(t.trait_ref.def_id)), a));
                }
                ty::ClauseKind::Projection(_) => v.push(format!("[\"proj\",{}]", esc(&with_no_trimmed_paths!(format!("{}", p))))),
                _ => v.push(format!("[\"other\",{}]", esc(&with_no_trimmed_paths!(format!("{}", p))))),
            }
        }
        list(&v)
    }
}

struct UnsafeFinder { spans: Vec<Span> }
impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeFinder {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { self.spans.push(b.span); }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cx<'tcx> { env: TypingEnv<'tcx>, root: Option<DefId>, key: usize }

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut d = D { tcx, types: vec![], tmap: HashMap::new(), paths: HashMap::new(), insts: HashMap::new(), queue: VecDeque::new() };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
    for ldid in keys {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        match kind { DefKind::Fn | DefKind::AssocFn => {}, _ => continue }
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, did);
        // a trait method without a default body has no MIR
        if !tcx.is_mir_available(did) { continue; }
        let inst = Instance { def: InstanceKind::Item(did), args };
        let key = d.inst(inst, Some(did), env);
        let p = d.path(did);
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
        let ins: Vec<String> = sig.inputs().iter().map(|t| { let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*t)).unwrap_or(*t); d.ty(t).to_string() }).collect();
        let out = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
        let out = d.ty(out);
        let mut kindstr = "free";
        let mut parent = "null".to_string();
        let mut tr = "null".to_string();
        let mut trargs = "[]".to_string();
        let mut selfty = "null".to_string();
        if let Some(ai) = tcx.opt_associated_item(did) {
            let _ = ai;
            if let Some(t) = tcx.trait_of_assoc(did) {
                if tcx.impl_of_assoc(did).is_none() { kindstr = "traitdefault"; tr = esc(&d.path(t)); }
            }
            if let Some(i) = tcx.impl_of_assoc(did) {
                parent = format!("\"{:?}\"", i);
                selfty = d.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip()).to_string();
                if tcx.def_kind(i) == (DefKind::Impl { of_trait: true }) {
                    kindstr = "traitimpl";
                    let r = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                    tr = esc(&d.path(r.def_id));
                    trargs = d.args(r.args);
                } else { kindstr = "inherent"; }
            }
        }
        let in_fn = tcx.opt_local_parent(ldid).map(|p| matches!(tcx.def_kind(p), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)).unwrap_or(false);
        let gens: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| d.ty(t).to_string()).collect();
        let pr = d.preds(did);
        let name = tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default();
        let us = tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        fns.push(format!("{{\"key\":{},\"path\":{},\"name\":{},\"kind\":\"{}\",\"impl\":{},\"trait\":{},\"trait_args\":{},\"self\":{},\"in\":{},\"out\":{},\"exported\":{},\"nested\":{},\"generics\":{},\"preds\":{},\"span\":{},\"ispan\":{},\"unsafe\":{}}}",
            key, esc(&p), esc(&name), kindstr, parent, tr, trargs, selfty, list(&ins), out, ev.is_reachable(ldid), in_fn, list(&gens), pr, d.span(tcx.def_span(did)), d.ispan(tcx.def_span(did)), us));
    }
    // bodies (transitively)
    let mut bodies = vec![];
    while let Some((key, inst, root, env)) = d.queue.pop_front() {
        let cx = Cx { env, root, key };
        let did = inst.def_id();
        let raw = match inst.def {
            InstanceKind::Item(x) => { if !tcx.is_mir_available(x) { continue; } tcx.instance_mir(inst.def) }
            InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => continue,
            _ => tcx.instance_mir(inst.def),
        };
        let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) { Ok(b) => b, Err(_) => { bodies.push(format!("{{\"key\":{},\"err\":true}}", key)); continue; } };
        let bs = d.body(&b, &cx);
        let mut proms = vec![];
        if let InstanceKind::Item(x) = inst.def {
            if matches!(tcx.def_kind(x), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                for p in tcx.promoted_mir(x).iter() {
                    match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, p.clone())) {
                        Ok(pb) => { let s = d.body(&pb, &cx); proms.push(format!("{{{}}}", s)); }
                        Err(_) => proms.push("null".into()),
                    }
                }
            }
        }
        let p = d.path(did);
        let a = d.args(inst.args);
        let rt = match root { Some(r) => esc(&d.path(r)), None => "null".into() };
        bodies.push(format!("{{\"key\":{},\"path\":{},\"crate\":{},\"args\":{},\"root\":{},\"local\":{},\"span\":{},\"ispan\":{},\"promoted\":{},{}}}",
            key, esc(&p), esc(&d.krate(did)), a, rt, did.is_local(), d.span(tcx.def_span(did)), d.ispan(tcx.def_span(did)), list(&proms), bs));
    }
    // closures: keyed by type so that the engine can find their bodies (they are reached via Fn*::call resolution)
    // impl table
    let mut impls = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()).iter() {
        for i in is.iter() {
            let i = i.to_def_id();
            let r = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            let a = d.args(r.args);
            let h = tcx.impl_trait_header(i);
            let neg = h.polarity == ty::ImplPolarity::Negative;
            let pr = d.preds(i);
            let mut items = vec![];
            for it in tcx.associated_items(i).in_definition_order() { items.push(esc(it.name().as_str())); }
            let derived = tcx.is_builtin_derived(i);
            impls.push(format!("{{\"id\":\"{:?}\",\"trait\":{},\"args\":{},\"neg\":{},\"unsafe\":{},\"preds\":{},\"items\":{},\"derived\":{},\"span\":{},\"ispan\":{}}}",
                i, esc(&d.path(*tr)), a, neg, h.safety.is_unsafe(), pr, list(&items), derived, d.span(tcx.def_span(i)), d.ispan(tcx.def_span(i))));
        }
    }
    // traits, adts, statics, inherent items
    let mut traits = vec![];
    let mut adts = vec![];
    let mut statics = vec![];
    let mut others = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Trait => {
                let items: Vec<String> = tcx.associated_items(did).in_definition_order().map(|i| format!("[{},{}]", esc(i.name().as_str()), i.defaultness(tcx).has_value())).collect();
                let pr = d.preds(did);
                traits.push(format!("{{\"path\":{},\"items\":{},\"preds\":{},\"exported\":{},\"unsafe\":{}}}", esc(&d.path(did)), list(&items), pr, ev.is_reachable(ldid), tcx.trait_def(did).safety.is_unsafe()));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut lays = vec![];
                let g = tcx.generics_of(did);
                if def.is_struct() && g.count() == 1 && g.own_params.len() == 1 {
                    for t in [tcx.types.u8, tcx.types.i16, tcx.types.f32, tcx.types.f64, tcx.types.u128] {
                        let at = Ty::new_adt(tcx, def, tcx.mk_args(&[t.into()]));
                        if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(at)) {
                            let offs: Vec<String> = (0..l.fields.count()).map(|k| l.fields.offset(k).bytes().to_string()).collect();
                            lays.push(format!("[\"{}\",{},{},{}]", t, l.size.bytes(), l.align.abi.bytes(), list(&offs)));
                        }
                    }
                }
                let fields: Vec<String> = if def.is_struct() { def.non_enum_variant().fields.iter().map(|f| { let ft = f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, did)).skip_norm_wip(); format!("[{},{},{}]", esc(f.name.as_str()), d.ty(ft), f.vis.is_public()) }).collect() } else { vec![] };
                adts.push(format!("{{\"path\":{},\"reprc\":{},\"packed\":{},\"layouts\":{},\"fields\":{},\"exported\":{}}}", esc(&d.path(did)), def.repr().c(), def.repr().packed(), list(&lays), list(&fields), ev.is_reachable(ldid)));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let frozen = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                let tls = tcx.is_thread_local_static(did);
                statics.push(format!("[{},{},{},{},{}]", esc(&d.path(did)), mutability.is_mut(), frozen, tls, d.span(tcx.def_span(did))));
            }
            DefKind::ForeignMod | DefKind::GlobalAsm => others.push(esc(&format!("{:?}", did))),
            _ => {}
        }
    }
    // unsafe blocks written by hand
    let mut unsafes = vec![];
    for o in tcx.hir_body_owners() {
        let mut v = UnsafeFinder { spans: vec![] };
        rustc_hir::intravisit::Visitor::visit_body(&mut v, tcx.hir_body_owned_by(o));
        for s in v.spans { unsafes.push(d.span(s)); }
    }
    let _ = VariantIdx::from_usize(0);
    // reexports visible from the crate root
    let mut exports = vec![];
    collect_exports(&mut d, rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), "mixed_num".into(), &mut exports, 0);
    let mut out = String::new();
    let _ = write!(out, "{{\"fns\":{},\n\"bodies\":[{}],\n\"impls\":{},\n\"traits\":{},\n\"adts\":{},\n\"statics\":{},\n\"others\":{},\n\"unsafe_blocks\":{},\n\"exports\":{},\n\"types\":{}}}",
        list(&fns), bodies.join(",\n"), list(&impls), list(&traits), list(&adts), list(&statics), list(&others), list(&unsafes), list(&exports), list(&d.types));
    out
}

fn collect_exports<'tcx>(d: &mut D<'tcx>, m: DefId, prefix: String, out: &mut Vec<String>, depth: usize) {
    if depth > 4 { return; }
    let tcx = d.tcx;
    let lm = match m.as_local() { Some(l) => l, None => return };
    for c in tcx.module_children_local(lm) {
        if !c.vis.is_public() { continue; }
        if let Some(did) = c.res.opt_def_id() {
            let n = format!("{}::{}", prefix, c.ident.name);
            out.push(format!("[{},{}]", esc(&n), esc(&d.path(did))));
            if tcx.def_kind(did) == DefKind::Mod && did.is_local() { collect_exports(d, did, n, out, depth + 1); }
        }
    }
}
