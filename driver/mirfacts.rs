//! `mirfacts`: a rustc driver that dumps the type-checked program (MIR, resolved callees,
//! evaluated constants, ADTs, trait impls) of the crates it is asked to analyse as JSON.
//! It never runs any code of the analysed crates.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt as _, with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

macro_rules! pp {
    ($e:expr) => {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e)))
    };
}

fn join(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    pp!(format!("{t}"))
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    pp!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn loc(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", l.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, l.line))
    }

    fn read_ptr(&self, alloc: &interpret::Allocation, off: usize) -> Option<(AllocId, usize)> {
        let prov = alloc.provenance().get_ptr(rustc_abi::Size::from_bytes(off as u64))?;
        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 8);
        let o = u64::from_le_bytes(b.try_into().ok()?);
        Some((prov.alloc_id(), o as usize))
    }

    fn with_alloc<R>(&self, id: AllocId, f: impl FnOnce(&interpret::Allocation) -> R) -> Option<R> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => Some(f(a.inner())),
            GlobalAlloc::Static(d) => {
                let a = self.tcx.eval_static_initializer(d).ok()?;
                Some(f(a.inner()))
            }
            _ => None,
        }
    }

    fn str_at(&self, id: AllocId, off: usize, len: usize) -> Option<String> {
        self.with_alloc(id, |a| {
            if off + len > a.len() {
                return None;
            }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len);
            Some(String::from_utf8_lossy(b).to_string())
        })?
    }

    /// decode a value of type `t` stored in `alloc` at `off` as JSON
    fn decode(&self, t: Ty<'tcx>, alloc: &interpret::Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        let size = self.tcx.layout_of(self.env.as_query_input(t)).ok()?.size.bytes() as usize;
        if off + size > alloc.len() {
            return None;
        }
        let bytes = |n: usize| -> u128 {
            let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            v
        };
        match t.kind() {
            ty::Bool => Some(format!("{{\"b\":{}}}", if bytes(1) != 0 { "true" } else { "false" })),
            ty::Char => Some(format!("{{\"ch\":{}}}", bytes(4))),
            ty::Uint(_) => Some(format!("{{\"i\":{}}}", bytes(size))),
            ty::Int(_) => {
                let v = bytes(size);
                let sh = 128 - 8 * size as u32;
                Some(format!("{{\"i\":{}}}", ((v << sh) as i128) >> sh))
            }
            ty::Ref(_, inner, _) => {
                let (id, o) = self.read_ptr(alloc, off)?;
                match inner.kind() {
                    ty::Str => {
                        let len = {
                            let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                            u64::from_le_bytes(b.try_into().ok()?) as usize
                        };
                        Some(format!("{{\"s\":{}}}", esc(&self.str_at(id, o, len)?)))
                    }
                    ty::Slice(e) => {
                        let len = {
                            let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                            u64::from_le_bytes(b.try_into().ok()?) as usize
                        };
                        let es = self.tcx.layout_of(self.env.as_query_input(*e)).ok()?.size.bytes() as usize;
                        let mut v = vec![];
                        for i in 0..len {
                            v.push(self.with_alloc(id, |a| self.decode(*e, a, o + i * es, depth + 1))??);
                        }
                        Some(format!("{{\"a\":{}}}", join(v)))
                    }
                    _ => {
                        let v = self.with_alloc(id, |a| self.decode(*inner, a, o, depth + 1))??;
                        Some(format!("{{\"ref\":{v}}}"))
                    }
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx)? as usize;
                if n > 4096 {
                    return None;
                }
                let es = self.tcx.layout_of(self.env.as_query_input(*e)).ok()?.size.bytes() as usize;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(*e, alloc, off + i * es, depth + 1)?);
                }
                Some(format!("{{\"a\":{}}}", join(v)))
            }
            ty::Tuple(ts) => {
                let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let mut v = vec![];
                for (i, e) in ts.iter().enumerate() {
                    v.push(self.decode(e, alloc, off + l.fields.offset(i).bytes() as usize, depth + 1)?);
                }
                Some(format!("{{\"tup\":{}}}", join(v)))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    v.push(self.decode(ft, alloc, off + l.fields.offset(i).bytes() as usize, depth + 1)?);
                }
                let names: Vec<String> = def.non_enum_variant().fields.iter().map(|f| esc(f.name.as_str())).collect();
                Some(format!("{{\"adt\":{},\"fields\":{},\"names\":{}}}", esc(&path(self.tcx, def.did())), join(v), join(names)))
            }
            ty::Adt(def, _) if def.is_enum() => {
                if size == 0 {
                    return Some(format!("{{\"adt\":{},\"variant\":{}}}", esc(&path(self.tcx, def.did())),
                        esc(def.variants().iter().next()?.name.as_str())));
                }
                if def.variants().iter().all(|v| v.fields.is_empty()) {
                    let tag = bytes(size);
                    for (vi, d) in def.discriminants(self.tcx) {
                        let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                        if d.val & mask == tag {
                            return Some(format!("{{\"adt\":{},\"variant\":{}}}", esc(&path(self.tcx, def.did())),
                                esc(def.variant(vi).name.as_str())));
                        }
                    }
                    return None;
                }
                let ty::Adt(_, args) = t.kind() else { return None };
                let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let vi = match &l.variants {
                    rustc_abi::Variants::Single { index } => *index,
                    rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + l.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let ts = tag.size(&self.tcx).bytes() as usize;
                        let has_ptr = alloc.provenance().get_ptr(rustc_abi::Size::from_bytes(to as u64)).is_some();
                        let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(to..to + ts);
                        let mut raw = 0u128;
                        for (i, x) in b.iter().enumerate() {
                            raw |= (*x as u128) << (8 * i);
                        }
                        let mask = if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                        match tag_encoding {
                            rustc_abi::TagEncoding::Direct => {
                                def.discriminants(self.tcx).find(|(_, d)| d.val & mask == raw)?.0
                            }
                            rustc_abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    *untagged_variant
                                } else {
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= n {
                                        rustc_abi::VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                    _ => return None,
                };
                let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
                let vl = l.for_variant(&cx, vi);
                let mut v = vec![];
                for (i, f) in def.variant(vi).fields.iter().enumerate() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    v.push(self.decode(ft, alloc, off + vl.fields.offset(i).bytes() as usize, depth + 1)?);
                }
                let names: Vec<String> = def.variant(vi).fields.iter().map(|f| esc(f.name.as_str())).collect();
                Some(format!("{{\"adt\":{},\"variant\":{},\"fields\":{},\"names\":{}}}", esc(&path(self.tcx, def.did())),
                    esc(def.variant(vi).name.as_str()), join(v), join(names)))
            }
            _ => None,
        }
    }

    fn constval(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size().bytes() as usize;
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => Some(format!("{{\"b\":{}}}", if bits != 0 { "true" } else { "false" })),
                    ty::Char => Some(format!("{{\"ch\":{bits}}}")),
                    ty::Int(_) => {
                        let sh = 128 - 8 * size as u32;
                        Some(format!("{{\"i\":{}}}", ((bits << sh) as i128) >> sh))
                    }
                    ty::Uint(_) => Some(format!("{{\"i\":{bits}}}")),
                    ty::Adt(def, _) if def.is_enum() && def.variants().iter().all(|v| v.fields.is_empty()) => {
                        for (vi, d) in def.discriminants(self.tcx) {
                            let mask = if size >= 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                            if d.val & mask == bits {
                                return Some(format!("{{\"adt\":{},\"variant\":{}}}", esc(&path(self.tcx, def.did())),
                                    esc(def.variant(vi).name.as_str())));
                            }
                        }
                        None
                    }
                    _ => None,
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let id = p.provenance.alloc_id();
                let off = p.into_raw_parts().1.bytes() as usize;
                let mut st = String::new();
                if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(id) {
                    st = format!(",\"static\":{}", esc(&path(self.tcx, d)));
                    if self.tcx.is_foreign_item(d) || self.tcx.is_thread_local_static(d) || !d.is_local() {
                        return Some(format!("{{\"k\":\"staticref\"{st}}}"));
                    }
                }
                let inner = match t.kind() {
                    ty::Ref(_, i, _) => *i,
                    ty::RawPtr(i, _) => *i,
                    _ => return None,
                };
                let v = self.with_alloc(id, |a| self.decode(inner, a, off, 0)).flatten();
                match v {
                    Some(v) => Some(format!("{{\"ref\":{v}{st}}}")),
                    None if !st.is_empty() => Some(format!("{{\"k\":\"staticref\"{st}}}")),
                    None => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                ty::Ref(_, i, _) if i.is_str() => {
                    Some(format!("{{\"s\":{}}}", esc(&self.str_at(alloc_id, 0, meta as usize)?)))
                }
                ty::Ref(_, i, _) => {
                    if let ty::Slice(e) = i.kind() {
                        let es = self.tcx.layout_of(self.env.as_query_input(*e)).ok()?.size.bytes() as usize;
                        let mut v = vec![];
                        for k in 0..meta as usize {
                            v.push(self.with_alloc(alloc_id, |a| self.decode(*e, a, k * es, 1))??);
                        }
                        Some(format!("{{\"a\":{}}}", join(v)))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            ConstValue::Indirect { alloc_id, offset } => {
                self.with_alloc(alloc_id, |a| self.decode(t, a, offset.bytes() as usize, 0)).flatten()
            }
            ConstValue::ZeroSized => Some("{\"zst\":true}".to_string()),
        }
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let name = path(tcx, d);
        let mut s = format!("\"fn\":{}", esc(&name));
        let targs: Vec<String> = args.iter().map(|a| esc(&pp!(format!("{a}")))).collect();
        let _ = write!(s, ",\"ga\":{}", join(targs));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{},\"method\":{}", esc(&path(tcx, tr)), esc(tcx.item_name(d).as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                let _ = write!(s, ",\"ctor\":true");
            } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let _ = write!(s, ",\"res\":{},\"rk\":\"{}\"", esc(&path(tcx, rd)), kind);
            }
        }
        s
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("{{{}}}", self.callee(*d, args));
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                extra = format!(",\"const\":{}", esc(&path(self.tcx, u.def)));
            }
        }
        let val = match c.const_ {
            Const::Ty(..) => None,
            _ => match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(v) => self.constval(v, t),
                Err(_) => None,
            },
        };
        match val {
            Some(v) => format!("{{\"t\":{},\"v\":{}{}}}", esc(&tystr(t)), v, extra),
            None => format!("{{\"t\":{},\"u\":{}{}}}", esc(&tystr(t)), esc(&pp!(format!("{}", c.const_))), extra),
        }
    }

    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut nm = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let var = match pt.variant_index {
                            Some(vi) => Some(def.variant(vi)),
                            None if def.is_struct() || def.is_union() => Some(def.non_enum_variant()),
                            None => None,
                        };
                        if let Some(var) = var {
                            if let Some(fd) = var.fields.get(f) {
                                nm = fd.name.to_string();
                            }
                        }
                    }
                    format!("[\"f\",{},{}]", f.as_usize(), esc(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{offset},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(n, vi) => format!(
                    "[\"v\",{},{}]",
                    vi.as_usize(),
                    esc(&n.map(|x| x.to_string()).unwrap_or_default())
                ),
                _ => "\"?\"".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), join(v))
    }

    fn op(&self, o: &Operand<'tcx>, b: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, b)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, b)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            _ => "[\"k\",{\"t\":\"bool\",\"u\":\"rtcheck\"}]".to_string(),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, b)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o, b), esc(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(k, BorrowKind::Mut { .. }) { "true" } else { "false" },
                self.place(p, b)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p, b)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(self.tcx, *d))),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{k:?}")),
                self.op(o, b),
                esc(&tystr(*t)),
                esc(&tystr(o.ty(b, self.tcx)))
            ),
            Rvalue::BinaryOp(k, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", k, self.op(&ops.0, b), self.op(&ops.1, b))
            }
            Rvalue::UnaryOp(k, o) => format!("[\"un\",\"{:?}\",{}]", k, self.op(o, b)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let mut vs = vec![];
                let mut nm = String::new();
                if let ty::Adt(def, _) = t.kind() {
                    nm = path(self.tcx, def.did());
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            vs.push(format!("[{},{}]", d.val, esc(def.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(p, b), esc(&nm), join(vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let kd = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let fs: Vec<String> = var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},{}]", esc(&path(self.tcx, *d)), esc(var.name.as_str()), join(fs))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&path(self.tcx, *d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.op(o, b)).collect();
                format!("[\"agg\",{},{}]", kd, join(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, b)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p, b)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&self, did: DefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let name = path(tcx, did);
        let _ = write!(o, "{{\"name\":{},\"loc\":{},\"kind\":{}", esc(&name), self.loc(tcx.def_span(did)), esc(&format!("{:?}", tcx.def_kind(did))));
        if let Some(p) = tcx.opt_parent(did) {
            let _ = write!(o, ",\"parent\":{}", esc(&path(tcx, p)));
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self_ty\":{}", esc(&tystr(st)));
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&path(tcx, tr.def_id)));
                    let _ = write!(o, ",\"trait_ref\":{}", esc(&pp!(format!("{}", tr.print_only_trait_path()))));
                    let _ = write!(o, ",\"derived\":{}", tcx.is_automatically_derived(p));
                }
            } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                let _ = write!(o, ",\"in_trait\":{}", esc(&path(tcx, p)));
            }
        }
        if let Some(n) = tcx.opt_item_name(did) {
            let _ = write!(o, ",\"item\":{}", esc(n.as_str()));
        }
        let _ = write!(o, ",\"argc\":{}", b.arg_count);
        let ls: Vec<String> = b.local_decls.iter().map(|l| esc(&tystr(l.ty))).collect();
        let _ = write!(o, ",\"locals\":{}", join(ls));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p, b)));
            }
        }
        let _ = write!(o, ",\"vars\":{}", join(names));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => st.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(&a.0, b),
                        self.rvalue(&a.1, b),
                        self.loc(s.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "[\"setd\",{},{}]",
                        self.place(place, b),
                        variant_index.as_usize()
                    )),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.op(discr, b),
                        join(v),
                        targets.otherwise().as_usize(),
                        esc(&tystr(discr.ty(b, tcx)))
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place, b), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, b)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        self.op(func, b),
                        join(a),
                        self.place(destination, b),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.op(len, b), self.op(index, b))
                        }
                        AssertKind::Overflow(op, l, r) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, self.op(l, b), self.op(r, b))
                        }
                        AssertKind::OverflowNeg(x) => format!("[\"neg\",{}]", self.op(x, b)),
                        AssertKind::DivisionByZero(x) => format!("[\"div0\",{}]", self.op(x, b)),
                        AssertKind::RemainderByZero(x) => format!("[\"rem0\",{}]", self.op(x, b)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.op(cond, b), expected, m, target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"cl\":{}}}", join(st), tk, loc, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":[\n{}]}}", blocks.join(",\n"));
        o
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let k = tcx.def_kind(did);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did) };
            let b = tcx.optimized_mir(did);
            bodies.push(cx.body(did, b));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                format!(
                                    "[{},{}]",
                                    esc(f.name.as_str()),
                                    esc(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                                )
                            })
                            .collect();
                        vs.push(format!("[{},{}]", esc(v.name.as_str()), join(fs)));
                    }
                    adts.push(format!(
                        "{{\"name\":{},\"enum\":{},\"variants\":{}}}",
                        esc(&path(tcx, did)),
                        def.is_enum(),
                        join(vs)
                    ));
                }
                DefKind::Static { .. } => {
                    let cx = Cx { tcx, env: TypingEnv::fully_monomorphized() };
                    if tcx.is_foreign_item(did) || tcx.is_thread_local_static(did) {
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(a) = tcx.eval_static_initializer(did) {
                        if let Some(v) = cx.decode(t, a.inner(), 0, 0) {
                            statics.push(format!("[{},{}]", esc(&path(tcx, did)), v));
                        }
                    }
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut ms = vec![];
                    for a in tcx.associated_items(did).in_definition_order() {
                        if let Some(n) = a.opt_name() {
                            ms.push(format!("[{},{}]", esc(n.as_str()), esc(&path(tcx, a.def_id))));
                        }
                    }
                    impls.push(format!(
                        "{{\"trait\":{},\"self\":{},\"methods\":{}}}",
                        esc(&path(tcx, tr.def_id)),
                        esc(&tystr(st)),
                        join(ms)
                    ));
                }
                _ => {}
            }
        }
        let s = format!(
            "{{\"crate\":{},\n\"adts\":{},\n\"impls\":{},\n\"statics\":{},\n\"bodies\":[\n{}]}}\n",
            esc(&krate),
            join(adts),
            join(impls),
            join(statics),
            bodies.join(",\n")
        );
        let p = format!("{}/{}.json", self.out, krate);
        std::fs::write(&p, s).unwrap_or_else(|e| panic!("mirfacts: cannot write {p}: {e}"));
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let is_crate = args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a.starts_with("--print"))
        && !out.is_empty();
    if is_crate {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
