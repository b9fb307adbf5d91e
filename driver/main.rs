// MIR fact extractor for the mvdparser static analyser.
//
// Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  For the
// crate named in MVDSA_CRATE it writes the monomorphic MIR of every function
// reachable from the crate's public surface (local bodies plus the bodies of a
// small allow-list of core/std modules) as JSON to MVDSA_OUT.  It only reads
// compiler data structures; nothing of the analysed crate is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_ast::attr::AttributeExt;
use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, BinOp, CastKind, Const, ConstValue, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp, VarDebugInfoContents,
};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    types: Vec<Option<String>>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Option<String>>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<Instance<'tcx>>,
    inline: Vec<String>,
    adt_expand: Vec<String>,
    statics: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(None);
        self.type_ids.insert(t, id);
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!(
                "\"k\":\"int\",\"bits\":{},\"signed\":true",
                i.bit_width().unwrap_or(64)
            ),
            ty::Uint(i) => format!(
                "\"k\":\"int\",\"bits\":{},\"signed\":false",
                i.bit_width().unwrap_or(64)
            ),
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, to, m) => {
                format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(to))
            }
            ty::RawPtr(to, m) => {
                format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), self.ty(to))
            }
            ty::Slice(el) => format!("\"k\":\"slice\",\"el\":{}", self.ty(el)),
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "\"k\":\"array\",\"el\":{},\"len\":{}",
                    self.ty(el),
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            ty::Tuple(els) => {
                let v: Vec<String> = els.iter().map(|e| self.ty(e).to_string()).collect();
                format!("\"k\":\"tuple\",\"els\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let local = def.did().is_local();
                let targs: Vec<String> =
                    args.types().map(|a| self.ty(a).to_string()).collect();
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let expand = local
                    || self.adt_expand.iter().any(|p| path.starts_with(p.as_str()));
                let mut vs = vec![];
                if !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            let size = d.ty.is_signed();
                            if size {
                                let bits = match d.ty.kind() {
                                    ty::Int(i) => i.bit_width().unwrap_or(64),
                                    _ => 128,
                                };
                                let sh = 128 - bits;
                                (((d.val as i128) << sh) >> sh).to_string()
                            } else {
                                d.val.to_string()
                            }
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        if expand {
                            for f in v.fields.iter() {
                                let ft = f.ty(self.tcx, args).skip_norm_wip();
                                fs.push(format!(
                                    "{{\"name\":{},\"ty\":{}}}",
                                    esc(f.name.as_str()),
                                    self.ty(ft)
                                ));
                            }
                        } else if !def.is_enum() {
                            for f in v.fields.iter() {
                                fs.push(format!("{{\"name\":{}}}", esc(f.name.as_str())));
                            }
                        }
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                            esc(v.name.as_str()),
                            d,
                            fs.join(",")
                        ));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"local\":{},\"args\":[{}],\"expanded\":{},\"variants\":[{}]",
                    kind,
                    esc(&path),
                    local,
                    targs.join(","),
                    expand,
                    vs.join(",")
                )
            }
            ty::Closure(did, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|u| self.ty(u).to_string())
                    .collect();
                let inst = if t.has_param() {
                    None
                } else {
                    let i = Instance::new_raw(did, args);
                    Some(self.inst(i))
                };
                let kind = format!("{:?}", args.as_closure().kind());
                let names: Vec<String> = if let Some(l) = did.as_local() {
                    self.tcx
                        .closure_captures(l)
                        .iter()
                        .map(|c| esc(c.to_symbol().as_str()))
                        .collect()
                } else {
                    vec![]
                };
                format!(
                    "\"k\":\"closure\",\"path\":{},\"kind\":{},\"upvars\":[{}],\"upvar_names\":[{}],\"inst\":{}",
                    esc(&self.path(did)),
                    esc(&kind),
                    ups.join(","),
                    names.join(","),
                    inst.map(|i| i.to_string()).unwrap_or("null".into())
                )
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                let (fi, _) = self.resolve_fn(did, args);
                format!(
                    "\"k\":\"fndef\",\"path\":{},\"fn\":{}",
                    esc(&self.path(did)),
                    fi
                )
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = Some(format!("{{{},\"disp\":{}}}", body, esc(&disp)));
        id
    }

    /// description of a (possibly trait-) function reference
    fn resolve_fn(
        &mut self,
        did: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> (String, Option<Instance<'tcx>>) {
        let path = self.path(did);
        let name = self
            .tcx
            .opt_item_name(did)
            .map(|s| s.to_string())
            .unwrap_or_default();
        let trait_ = self.tcx.trait_of_assoc(did).map(|t| self.path(t));
        let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
        let mut resolved = None;
        if !args.has_param() {
            if matches!(self.tcx.def_kind(did), DefKind::Ctor(..)) {
                resolved = Some(Instance::new_raw(did, args));
            } else if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, did, args) {
                resolved = Some(i);
            }
        }
        let inst = resolved.map(|i| self.inst(i));
        (
            format!(
                "{{\"path\":{},\"name\":{},\"trait\":{},\"targs\":[{}],\"inst\":{}}}",
                esc(&path),
                esc(&name),
                trait_.map(|t| esc(&t)).unwrap_or("null".into()),
                targs.join(","),
                inst.map(|i| i.to_string()).unwrap_or("null".into())
            ),
            resolved,
        )
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.inst_ids.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.insts.push(None);
        self.inst_ids.insert(i, n);
        self.queue.push_back(i);
        n
    }

    fn doc(&self, did: DefId) -> String {
        let mut s = String::new();
        for a in self.tcx.get_all_attrs(did) {
            if let Some(d) = a.doc_str() {
                s.push_str(d.as_str());
                s.push('\n');
            }
        }
        s
    }

    fn emit_inst(&mut self, i: Instance<'tcx>) -> String {
        let did = i.def_id();
        let path = self.path(did);
        let full = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(did, i.args));
        let local = did.is_local();
        let krate = self.tcx.crate_name(did.krate).to_string();
        let kind = match i.def {
            InstanceKind::Item(d) => {
                if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
                    "ctor"
                } else {
                    "item"
                }
            }
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ty::ShimKind::ClosureOnce { .. } => "shim_closure_once",
                ty::ShimKind::FnPtr(..) => "shim_fnptr",
                ty::ShimKind::Clone(..) => "shim_clone",
                ty::ShimKind::DropGlue(..) => "shim_drop",
                ty::ShimKind::Reify(..) => "shim_reify",
                _ => "shim_other",
            },
        };
        let is_fn_like = matches!(
            self.tcx.def_kind(did),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
        );
        let track_caller = is_fn_like
            && !matches!(self.tcx.def_kind(did), DefKind::Closure | DefKind::Ctor(..))
            && self
                .tcx
                .codegen_fn_attrs(did)
                .flags
                .contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER);
        let name = self
            .tcx
            .opt_item_name(did)
            .map(|s| s.to_string())
            .unwrap_or_default();
        let mut panics_doc = false;
        let mut unsafe_ = false;
        if is_fn_like && !matches!(self.tcx.def_kind(did), DefKind::Closure | DefKind::Ctor(..)) {
            if !local {
                let mut d = self.doc(did);
                if let Some(ti) = self.tcx.trait_item_of(did) {
                    if ti != did {
                        d.push_str(&self.doc(ti));
                    }
                }
                panics_doc = d.contains("# Panics") || d.contains("# Panic");
            }
            unsafe_ = !self.tcx.fn_sig(did).skip_binder().safety().is_safe();
        }
        // trait method provenance of impl items
        let mut trait_path = "null".to_string();
        let mut self_ty = "null".to_string();
        let mut derived = false;
        if is_fn_like && !matches!(self.tcx.def_kind(did), DefKind::Ctor(..)) {
            let parent = self.tcx.parent(did);
            if matches!(self.tcx.def_kind(parent), DefKind::Impl { .. }) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(parent) {
                    trait_path = esc(&self.path(tr.skip_binder().def_id));
                }
                if !i.args.has_param() {
                    let st = self.tcx.type_of(parent);
                    let st = self.tcx.try_instantiate_and_normalize_erasing_regions(
                        i.args, self.env, st);
                    if let Ok(st) = st {
                        self_ty = self.ty(st).to_string();
                    }
                }
                derived = self.tcx.is_automatically_derived(parent);
            } else if matches!(self.tcx.def_kind(parent), DefKind::Trait) {
                trait_path = esc(&self.path(parent));
                if i.args.types().next().is_some() {
                    let st = i.args.type_at(0);
                    self_ty = self.ty(st).to_string();
                }
            }
        }
        let targs: Vec<String> = i.args.types().map(|a| self.ty(a).to_string()).collect();
        let want_body = matches!(kind, "item" | "shim_closure_once" | "shim_fnptr")
            && is_fn_like
            && (local || self.inline.iter().any(|p| path.starts_with(p.as_str())))
            && (local || self.tcx.is_mir_available(did))
            && !i.args.has_param();
        let body = if want_body && !matches!(kind, "shim_fnptr") {
            Some(self.emit_body(i))
        } else {
            None
        };
        let mut o = format!(
            "{{\"path\":{},\"full\":{},\"name\":{},\"crate\":{},\"local\":{},\"kind\":\"{}\",\"trait\":{},\"self\":{},\"targs\":[{}],\"track_caller\":{},\"panics_doc\":{},\"unsafe\":{},\"derived\":{}",
            esc(&path),
            esc(&full),
            esc(&name),
            esc(&krate),
            local,
            kind,
            trait_path,
            self_ty,
            targs.join(","),
            track_caller,
            panics_doc,
            unsafe_,
            derived
        );
        if local {
            let _ = write!(o, ",\"span\":{}", self.span(self.tcx.def_span(did)));
        }
        if let Some(b) = body {
            let _ = write!(o, ",\"body\":{}", b);
        }
        o.push('}');
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("{{\"f\":{},\"t\":{}}}", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("{{\"ci\":{},\"fe\":{}}}", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"ss\":[{},{}],\"fe\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(_, vi) => format!("{{\"d\":{}}}", vi.index()),
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = self.constant(&c.const_, c.span);
                let mut named = "null".to_string();
                if let Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        named = esc(&self.path(u.def));
                    }
                }
                format!("{{\"c\":{},\"t\":{},\"n\":{}}}", v, self.ty(t), named)
            }
            Operand::RuntimeChecks(_) => "{\"rc\":true}".to_string(),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => self.const_value(v, t),
            Err(_) => "{\"opaque\":true}".into(),
        }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Scalar(s) => self.scalar(s, t, 0),
            ConstValue::Slice { alloc_id, meta } => {
                self.decode_ref(alloc_id, Size::ZERO, Some(meta), t, 0)
            }
            ConstValue::Indirect { alloc_id, offset } => self.decode_at(alloc_id, offset, t, 0),
        }
    }

    fn zst(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::FnDef(did, args) => {
                let (f, _) = self.resolve_fn(*did, args.skip_binder());
                format!("{{\"fn\":{}}}", f)
            }
            ty::Adt(d, _) if d.is_struct() => "{\"adt\":0,\"fields\":[]}".to_string(),
            ty::Tuple(e) if e.is_empty() => "{\"tuple\":[]}".to_string(),
            ty::Array(..) => "{\"arr\":[]}".to_string(),
            _ => "{\"zst\":true}".to_string(),
        }
    }

    fn int_str(&self, bits: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Int(i) => {
                let sh = 128 - i.bit_width().unwrap_or(64) as u32;
                (((bits << sh) as i128) >> sh).to_string()
            }
            _ => bits.to_string(),
        }
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: usize) -> String {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
                    ty::Int(_) | ty::Uint(_) => format!("{{\"int\":{}}}", self.int_str(bits, t)),
                    ty::Char => format!("{{\"char\":{}}}", bits),
                    ty::Float(_) => format!("{{\"float\":{}}}", bits),
                    ty::Adt(..) => {
                        // newtype or fieldless enum: decode through layout
                        self.decode_scalar_adt(bits, t)
                    }
                    _ => "{\"opaque\":true}".into(),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.decode_ref(prov.alloc_id(), off, None, t, depth)
            }
        }
    }

    fn decode_scalar_adt(&mut self, bits: u128, t: Ty<'tcx>) -> String {
        let ty::Adt(def, args) = *t.kind() else { return "{\"opaque\":true}".into() };
        if def.is_enum() {
            for (vi, v) in def.variants().iter_enumerated() {
                let d = def.discriminant_for_variant(self.tcx, vi);
                let Ok(layout) = self.tcx.layout_of(self.env.as_query_input(t)) else {
                    return "{\"opaque\":true}".into();
                };
                let mask = if layout.size.bits() >= 128 { u128::MAX } else { (1u128 << layout.size.bits()) - 1 };
                if v.fields.is_empty() && (d.val & mask) == (bits & mask) {
                    return format!("{{\"adt\":{},\"fields\":[]}}", vi.index());
                }
            }
            return "{\"opaque\":true}".into();
        }
        if def.is_struct() {
            let v = def.non_enum_variant();
            let mut fs = vec![];
            let mut used = false;
            for f in v.fields.iter() {
                let ft = f.ty(self.tcx, args).skip_norm_wip();
                let ft = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                let lay = self.tcx.layout_of(self.env.as_query_input(ft));
                if lay.map(|l| l.is_zst()).unwrap_or(false) {
                    fs.push(self.zst(ft));
                } else if !used {
                    used = true;
                    fs.push(match ft.kind() {
                        ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
                        ty::Int(_) | ty::Uint(_) => format!("{{\"int\":{}}}", self.int_str(bits, ft)),
                        ty::Char => format!("{{\"char\":{}}}", bits),
                        ty::Adt(..) => self.decode_scalar_adt(bits, ft),
                        _ => "{\"opaque\":true}".into(),
                    });
                } else {
                    return "{\"opaque\":true}".into();
                }
            }
            return format!("{{\"adt\":0,\"fields\":[{}]}}", fs.join(","));
        }
        "{\"opaque\":true}".into()
    }

    /// `t` is a pointer/reference type; the pointee lives in `alloc` at `off`.
    fn decode_ref(
        &mut self,
        alloc: AllocId,
        off: Size,
        meta: Option<u64>,
        t: Ty<'tcx>,
        depth: usize,
    ) -> String {
        if depth > 24 {
            return "{\"opaque\":true}".into();
        }
        let pointee = match t.kind() {
            ty::Ref(_, to, _) => *to,
            ty::RawPtr(to, _) => *to,
            ty::FnPtr(..) => {
                if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(alloc) {
                    let n = self.inst(instance);
                    return format!("{{\"fnptr\":{}}}", n);
                }
                return "{\"opaque\":true}".into();
            }
            _ => return "{\"opaque\":true}".into(),
        };
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                match pointee.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0) as usize;
                        let o = off.bytes() as usize;
                        if o + n > m.len() {
                            return "{\"opaque\":true}".into();
                        }
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)))
                    }
                    ty::Slice(el) => {
                        let n = meta.unwrap_or(0);
                        let Ok(l) = self.tcx.layout_of(self.env.as_query_input(*el)) else {
                            return "{\"opaque\":true}".into();
                        };
                        let sz = l.size.bytes();
                        if el.is_integral() && sz == 1 {
                            let o = off.bytes() as usize;
                            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(
                                o..o + n as usize,
                            );
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            return format!("{{\"ref\":{{\"bytes\":[{}]}}}}", v.join(","));
                        }
                        let mut v = vec![];
                        for k in 0..n {
                            let x = self.decode_at(
                                alloc,
                                Size::from_bytes(off.bytes() + k * sz),
                                *el,
                                depth + 1,
                            );
                            v.push(x);
                        }
                        format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","))
                    }
                    ty::Dynamic(..) => "{\"opaque\":true}".into(),
                    _ => {
                        let x = self.decode_at(alloc, off, pointee, depth + 1);
                        format!("{{\"ref\":{}}}", x)
                    }
                }
            }
            GlobalAlloc::Static(d) => {
                let path = self.path(d);
                let mutable = self.tcx.is_mutable_static(d);
                let st = self.tcx.type_of(d).skip_binder();
                let frozen = st.is_freeze(self.tcx, self.env);
                self.statics.insert(
                    d,
                    format!(
                        "{{\"path\":{},\"mut\":{},\"freeze\":{},\"local\":{}}}",
                        esc(&path),
                        mutable,
                        frozen,
                        d.is_local()
                    ),
                );
                if mutable || !frozen {
                    return format!("{{\"static\":{},\"opaque\":true}}", esc(&path));
                }
                if let Ok(a) = self.tcx.eval_static_initializer(d) {
                    let a2 = self.tcx.reserve_and_set_memory_alloc(a);
                    let x = self.decode_at(a2, off, pointee, depth + 1);
                    return format!("{{\"ref\":{},\"static\":{}}}", x, esc(&path));
                }
                format!("{{\"static\":{},\"opaque\":true}}", esc(&path))
            }
            _ => "{\"opaque\":true}".into(),
        }
    }

    fn decode_at(&mut self, alloc: AllocId, off: Size, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 24 {
            return "{\"opaque\":true}".into();
        }
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc) else {
            return "{\"opaque\":true}".into();
        };
        let m = m.inner();
        let Ok(layout) = self.tcx.layout_of(self.env.as_query_input(t)) else {
            return "{\"opaque\":true}".into();
        };
        if layout.is_zst() {
            return self.zst(t);
        }
        let o = off.bytes() as usize;
        let n = layout.size.bytes() as usize;
        if o + n > m.len() {
            return "{\"opaque\":true}".into();
        }
        let read_uint = |o: usize, n: usize| -> u128 {
            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            v
        };
        match *t.kind() {
            ty::Bool => format!("{{\"bool\":{}}}", read_uint(o, n) != 0),
            ty::Int(_) | ty::Uint(_) => format!("{{\"int\":{}}}", self.int_str(read_uint(o, n), t)),
            ty::Char => format!("{{\"char\":{}}}", read_uint(o, n)),
            ty::Float(_) => format!("{{\"float\":{}}}", read_uint(o, n)),
            ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) => {
                let Some(prov) = m.provenance().get_ptr(off) else {
                    return "{\"opaque\":true}".into();
                };
                let target_off = read_uint(o, 8) as u64;
                let meta = if n == 16 { Some(read_uint(o + 8, 8) as u64) } else { None };
                self.decode_ref(prov.alloc_id(), Size::from_bytes(target_off), meta, t, depth + 1)
            }
            ty::Array(el, cnt) => {
                let cnt = cnt.try_to_target_usize(self.tcx).unwrap_or(0);
                let sz = self
                    .tcx
                    .layout_of(self.env.as_query_input(el))
                    .map(|l| l.size.bytes())
                    .unwrap_or(0);
                if el.is_integral() && sz == 1 {
                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(o..o + cnt as usize);
                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"bytes\":[{}]}}", v.join(","));
                }
                let mut v = vec![];
                for k in 0..cnt {
                    let x =
                        self.decode_at(alloc, Size::from_bytes(off.bytes() + k * sz), el, depth + 1);
                    v.push(x);
                }
                format!("{{\"arr\":[{}]}}", v.join(","))
            }
            ty::Tuple(els) => {
                let mut v = vec![];
                for (k, e) in els.iter().enumerate() {
                    let fo = layout.fields.offset(k);
                    v.push(self.decode_at(alloc, off + fo, e, depth + 1));
                }
                format!("{{\"tuple\":[{}]}}", v.join(","))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let v = def.non_enum_variant();
                let mut fs = vec![];
                for (k, f) in v.fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                    let fo = layout.fields.offset(k);
                    fs.push(self.decode_at(alloc, off + fo, ft, depth + 1));
                }
                format!("{{\"adt\":0,\"fields\":[{}]}}", fs.join(","))
            }
            ty::Adt(def, args) if def.is_enum() => {
                let vi: VariantIdx = match &layout.variants {
                    Variants::Empty => return "{\"opaque\":true}".into(),
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = layout.fields.offset(FieldIdx::as_usize(*tag_field)).bytes() as usize;
                        let tn = tag.size(&self.tcx).bytes() as usize;
                        let has_ptr = m.provenance().get_ptr(off + Size::from_bytes(to as u64)).is_some();
                        let raw = read_uint(o + to, tn);
                        let mask = if tn >= 16 { u128::MAX } else { (1u128 << (8 * tn)) - 1 };
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for (vi, _) in def.variants().iter_enumerated() {
                                    let d = def.discriminant_for_variant(self.tcx, vi);
                                    if d.val & mask == raw & mask {
                                        r = Some(vi);
                                    }
                                }
                                match r {
                                    Some(v) => v,
                                    None => return "{\"opaque\":true}".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    *untagged_variant
                                } else {
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let cnt = (niche_variants.last.as_u32()
                                        - niche_variants.start.as_u32())
                                        as u128;
                                    if rel <= cnt {
                                        VariantIdx::from_u32(
                                            niche_variants.start.as_u32() + rel as u32,
                                        )
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                };
                let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                let vl = layout.for_variant(&cx, vi);
                let mut fs = vec![];
                for (k, f) in def.variant(vi).fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ft = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                    let fo = vl.fields.offset(k);
                    fs.push(self.decode_at(alloc, off + fo, ft, depth + 1));
                }
                format!("{{\"adt\":{},\"fields\":[{}]}}", vi.index(), fs.join(","))
            }
            _ => "{\"opaque\":true}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                    self.operand(o),
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, mir::BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"r\":\"rawptr\",\"mut\":{},\"p\":{}}}",
                format!("{:?}", k).contains("Mut"),
                self.place(p)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"r\":\"reborrow\",\"mut\":{},\"p\":{}}}",
                m.is_mut(),
                self.place(p)
            ),
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"path\":{}}}", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int2int".to_string(),
                    CastKind::FloatToInt => "float2int".to_string(),
                    CastKind::FloatToFloat => "float2float".to_string(),
                    CastKind::IntToFloat => "int2float".to_string(),
                    CastKind::PtrToPtr => "ptr2ptr".to_string(),
                    CastKind::Transmute | CastKind::BoxDerefTransmute => "transmute".to_string(),
                    CastKind::Subtype => "subtype".to_string(),
                    CastKind::PointerCoercion(c, _) => match c {
                        PointerCoercion::ReifyFnPointer(_) => "reify".to_string(),
                        PointerCoercion::ClosureFnPointer(_) => "closurefnptr".to_string(),
                        PointerCoercion::Unsize => "unsize".to_string(),
                        _ => "ptrcoerce".to_string(),
                    },
                    _ => "other".to_string(),
                };
                format!(
                    "{{\"r\":\"cast\",\"k\":\"{}\",\"o\":{},\"from\":{},\"t\":{}}}",
                    ks,
                    self.operand(o),
                    {
                        let ft = match o {
                            Operand::Constant(c) => c.const_.ty(),
                            _ => *t,
                        };
                        self.ty(ft)
                    },
                    self.ty(*t)
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let ops = match op {
                    BinOp::AddWithOverflow => "AddO".to_string(),
                    BinOp::SubWithOverflow => "SubO".to_string(),
                    BinOp::MulWithOverflow => "MulO".to_string(),
                    o => format!("{:?}", o),
                };
                format!(
                    "{{\"r\":\"bin\",\"op\":\"{}\",\"a\":{},\"b\":{}}}",
                    ops,
                    self.operand(&ab.0),
                    self.operand(&ab.1)
                )
            }
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"r\":\"un\",\"op\":\"{}\",\"a\":{}}}",
                match op {
                    UnOp::Not => "Not",
                    UnOp::Neg => "Neg",
                    UnOp::PtrMetadata => "PtrMetadata",
                },
                self.operand(a)
            ),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match **k {
                    AggregateKind::Array(t) => format!("\"k\":\"array\",\"el\":{}", self.ty(t)),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(did, vi, args, _, active) => {
                        let t = self.tcx.type_of(did).instantiate(self.tcx, args).skip_norm_wip();
                        format!(
                            "\"k\":\"adt\",\"v\":{},\"t\":{},\"active\":{}",
                            vi.index(),
                            self.ty(t),
                            active.map(|a| a.index().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, did, args);
                        format!("\"k\":\"closure\",\"t\":{}", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".to_string(),
                    _ => "\"k\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"ops\":[{}]}}", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(p))
            }
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }

    fn emit_body(&mut self, i: Instance<'tcx>) -> String {
        let body0 = self.tcx.instance_mir(i.def);
        let body = i.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            ty::EarlyBinder::bind(self.tcx, body0.clone()),
        );
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let n = names
                .get(&l.index())
                .map(|s| esc(s))
                .unwrap_or("null".into());
            locals.push(format!("[{},{}]", self.ty(d.ty), n));
        }
        let mut blocks = vec![];
        for (_b, bb) in body.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                let x = match &s.kind {
                    StatementKind::Assign(b) => {
                        let sp = self.span(s.source_info.span);
                        format!(
                            "{{\"s\":\"=\",\"p\":{},\"v\":{},\"sp\":{}}}",
                            self.place(&b.0),
                            self.rvalue(&b.1),
                            sp
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "{{\"s\":\"setd\",\"p\":{},\"v\":{}}}",
                        self.place(place),
                        variant_index.index()
                    ),
                    StatementKind::StorageDead(l) => format!("{{\"s\":\"dead\",\"l\":{}}}", l.index()),
                    StatementKind::Intrinsic(b) => match &**b {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            format!("{{\"s\":\"assume\",\"o\":{}}}", self.operand(o))
                        }
                        _ => "{\"s\":\"copynonoverlap\"}".to_string(),
                    },
                    _ => continue,
                };
                ss.push(x);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", self.int_str(v, dt), b.index()))
                        .collect();
                    format!(
                        "\"t\":\"switch\",\"o\":{},\"ty\":{},\"targets\":[{}],\"else\":{}",
                        self.operand(discr),
                        self.ty(dt),
                        vs.join(","),
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::Return => "\"t\":\"ret\"".to_string(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "\"t\":\"unwind\"".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    format!(
                        "\"t\":\"drop\",\"p\":{},\"pt\":{},\"to\":{}",
                        self.place(place),
                        self.ty(pt),
                        target.index()
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "{{\"a\":\"bounds\",\"len\":{},\"index\":{}}}",
                            self.operand(len),
                            self.operand(index)
                        ),
                        AssertKind::Overflow(op, a, b) => {
                            let at = a.ty(&body.local_decls, self.tcx);
                            format!(
                                "{{\"a\":\"overflow\",\"op\":\"{:?}\",\"x\":{},\"y\":{},\"ty\":{}}}",
                                op,
                                self.operand(a),
                                self.operand(b),
                                self.ty(at)
                            )
                        }
                        AssertKind::OverflowNeg(a) => {
                            format!("{{\"a\":\"neg\",\"x\":{}}}", self.operand(a))
                        }
                        AssertKind::DivisionByZero(a) => {
                            format!("{{\"a\":\"div0\",\"x\":{}}}", self.operand(a))
                        }
                        AssertKind::RemainderByZero(a) => {
                            format!("{{\"a\":\"rem0\",\"x\":{}}}", self.operand(a))
                        }
                        _ => "{\"a\":\"other\"}".to_string(),
                    };
                    format!(
                        "\"t\":\"assert\",\"c\":{},\"exp\":{},\"m\":{},\"to\":{}",
                        self.operand(cond),
                        expected,
                        m,
                        target.index()
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let f = match ft.kind() {
                        ty::FnDef(did, fargs) => {
                            let (s, _) = self.resolve_fn(*did, fargs.skip_binder());
                            s
                        }
                        _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                    };
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let ats: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    format!(
                        "\"t\":\"call\",\"f\":{},\"args\":[{}],\"ats\":[{}],\"dest\":{},\"dt\":{},\"to\":{}",
                        f,
                        a.join(","),
                        ats.join(","),
                        self.place(destination),
                        self.ty(dt),
                        target.map(|t| t.index().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"t\":\"goto\",\"to\":{}", real_target.index())
                }
                _ => "\"t\":\"other\"".to_string(),
            };
            blocks.push(format!(
                "{{\"st\":[{}],{},\"sp\":{},\"cleanup\":{}}}",
                ss.join(","),
                ts,
                sp,
                bb.is_cleanup
            ));
        }
        let spread = body
            .spread_arg
            .map(|l| l.index().to_string())
            .unwrap_or("null".into());
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[{}]}}",
            body.arg_count,
            spread,
            locals.join(","),
            blocks.join(",")
        )
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let inline = std::env::var("MVDSA_INLINE").unwrap_or_default();
        let expand = std::env::var("MVDSA_EXPAND").unwrap_or_default();
        let split = |s: String| -> Vec<String> {
            s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
        };
        let mut cx = Cx {
            tcx,
            env: ty::TypingEnv::fully_monomorphized(),
            types: vec![],
            type_ids: HashMap::new(),
            insts: vec![],
            inst_ids: HashMap::new(),
            queue: VecDeque::new(),
            inline: split(inline),
            adt_expand: split(expand),
            statics: HashMap::new(),
        };
        let eff = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut allfns = vec![];
        let mut generic = vec![];
        let mut unsafe_blocks: HashSet<String> = HashSet::new();
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Static { .. }) {
                let st = tcx.type_of(did).skip_binder();
                let p = cx.path(did);
                let m = tcx.is_mutable_static(did);
                let fr = st.is_freeze(tcx, cx.env);
                cx.statics.insert(
                    did,
                    format!("{{\"path\":{},\"mut\":{},\"freeze\":{},\"local\":true}}", esc(&p), m, fr),
                );
            }
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let path = cx.path(did);
            let gens = tcx.generics_of(did);
            if gens.requires_monomorphization(tcx) {
                generic.push(esc(&path));
                continue;
            }
            // impl-derived?
            let parent = tcx.parent(did);
            let mut derived = false;
            let mut of_trait = "null".to_string();
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                derived = tcx.is_automatically_derived(parent);
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    of_trait = esc(&cx.path(tr.skip_binder().def_id));
                }
            }
            let public = eff.is_reachable(ldid);
            let inst = Instance::mono(tcx, did);
            let n = cx.inst(inst);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| {
                let t = tcx.erase_and_anonymize_regions(*t);
                cx.ty(t).to_string()
            }).collect();
            let out = {
                let t = tcx.erase_and_anonymize_regions(sig.output());
                cx.ty(t)
            };
            let rec = format!(
                "{{\"path\":{},\"inst\":{},\"public\":{},\"exported\":{},\"derived\":{},\"trait\":{},\"inputs\":[{}],\"output\":{},\"span\":{}}}",
                esc(&path), n, public, eff.is_exported(ldid), derived, of_trait, ins.join(","), out, cx.span(tcx.def_span(did))
            );
            if (public && !derived) || path.starts_with("verif_spec::") {
                roots.push(n.to_string());
            }
            allfns.push(rec);
        }
        let _ = &mut unsafe_blocks;
        while let Some(i) = cx.queue.pop_front() {
            let n = cx.inst_ids[&i];
            let s = cx.emit_inst(i);
            cx.insts[n] = Some(s);
        }
        let mut o = String::new();
        o.push_str("{\"types\":[");
        for (k, t) in cx.types.iter().enumerate() {
            if k > 0 {
                o.push_str(",\n");
            }
            o.push_str(t.as_deref().unwrap_or("null"));
        }
        o.push_str("],\n\"insts\":[");
        for (k, t) in cx.insts.iter().enumerate() {
            if k > 0 {
                o.push_str(",\n");
            }
            o.push_str(t.as_deref().unwrap_or("null"));
        }
        let mut st: Vec<&String> = cx.statics.values().collect();
        st.sort();
        let st: Vec<String> = st.into_iter().cloned().collect();
        let _ = write!(
            o,
            "],\n\"fns\":[{}],\n\"generic\":[{}],\n\"roots\":[{}],\n\"statics\":[{}]}}\n",
            allfns.join(",\n"),
            generic.join(","),
            roots.join(","),
            st.join(",")
        );
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let want = std::env::var("MVDSA_CRATE").unwrap_or_default();
    let mut name = String::new();
    let mut k = 0;
    while k < args.len() {
        if args[k] == "--crate-name" && k + 1 < args.len() {
            name = args[k + 1].clone();
        }
        k += 1;
    }
    let is_test = args.iter().any(|a| a == "--test");
    let out = std::env::var("MVDSA_OUT").unwrap_or_default();
    if !want.is_empty() && name == want && !is_test && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
