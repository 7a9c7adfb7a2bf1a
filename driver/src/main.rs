// MIR extraction driver: runs as a rustc wrapper over the repository's own build and writes, per
// crate, every local function body (plus every instantiation of a local generic function that is
// reachable with concrete arguments) as JSON: locals, blocks, resolved callees, evaluated
// constants.  It decides nothing; the rules live in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::VariantIdx;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, v: &str) {
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn put(o: &mut String, j: &J) {
    match j {
        J::Null => o.push_str("null"),
        J::B(b) => o.push_str(if *b { "true" } else { "false" }),
        J::I(i) => {
            let _ = write!(o, "{}", i);
        }
        J::S(v) => esc(o, v),
        J::A(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                put(o, x);
            }
            o.push(']');
        }
        J::O(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                esc(o, k);
                o.push(':');
                put(o, x);
            }
            o.push('}');
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_js: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    fns: Vec<J>,
}

impl<'tcx> Dump<'tcx> {
    fn ikey(&self, i: &Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let mut base = tcx.def_path_str_with_args(i.def_id(), i.args);
        if tcx.is_closure_like(i.def_id()) {
            base = format!("{}@{:?}", tcx.def_path_str(i.def_id()), i.args);
        }
        let krate = tcx.crate_name(i.def_id().krate);
        format!("{}::{}", krate, base)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        if let Some(i) = self.types.get(&t) {
            return J::I(*i as i128);
        }
        let id = self.type_js.len();
        self.types.insert(t, id);
        self.type_js.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(false)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*inner, env);
                o.push(("elem", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*inner, env);
                o.push(("elem", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Array(inner, n) => {
                o.push(("k", s("array")));
                let e = self.ty(*inner, env);
                o.push(("elem", e));
                let n = if n.has_non_region_param() { None } else { n.try_to_target_usize(tcx) };
                o.push(("len", n.map(|x| J::I(x as i128)).unwrap_or(J::Null)));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let e = self.ty(*inner, env);
                o.push(("elem", e));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty(t, env)).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(tcx.def_path_str(def.did()))));
                o.push(("crate", s(tcx.crate_name(def.did().krate).to_string())));
                o.push(("enum", J::B(def.is_enum())));
                let targs: Vec<J> = args.types().map(|t| self.ty(t, env)).collect();
                o.push(("targs", J::A(targs)));
                let local = def.did().is_local();
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val as i128
                    } else {
                        0
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = if local || def.is_enum() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx
                                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            self.ty(ft, env)
                        } else {
                            J::Null
                        };
                        fs.push(J::O(vec![("name", s(f.name.to_string())), ("ty", fty)]));
                    }
                    vs.push(J::O(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", J::I(discr)),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Closure(def, args) => {
                o.push(("k", s("closure")));
                let inst = Instance::new_raw(*def, args);
                self.enqueue(inst, env);
                o.push(("key", s(self.ikey(&inst))));
            }
            ty::FnDef(def, args) => {
                o.push(("k", s("fndef")));
                let args = *args;
                let c = self.callee(*def, args.no_bound_vars().unwrap_or(tcx.mk_args(&[])), env);
                o.push(("callee", c));
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_js[id] = J::O(o);
        J::I(id as i128)
    }

    /// Library bodies that are exported too: the plain combinators of core, which are ordinary MIR.
    fn std_body(&self, d: DefId) -> bool {
        if self.tcx.crate_name(d.krate).as_str() != "core" {
            return false;
        }
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        ["::option::", "::result::", "::bool::", "::ops::control_flow::", "::convert::{", "::cmp::"]
            .iter()
            .any(|x| p.starts_with(x))
    }

    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> bool {
        if !i.def_id().is_local() && !self.std_body(i.def_id()) {
            return false;
        }
        if !matches!(i.def, InstanceKind::Item(_)) {
            return false;
        }
        if !self.tcx.is_mir_available(i.def_id()) {
            return false;
        }
        let k = self.ikey(&i);
        if self.seen.insert(k) {
            self.queue.push_back((i, env));
        }
        true
    }

    fn raw(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(tcx.def_path_str(def))));
        o.push(("full", s(tcx.def_path_str_with_args(def, args))));
        o.push(("crate", s(tcx.crate_name(def.krate).to_string())));
        o.push(("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", s(tcx.def_path_str(tr))));
        }
        let targs: Vec<J> = args.types().map(|t| self.ty(t, env)).collect();
        o.push(("targs", J::A(targs)));
        let cargs: Vec<J> = args
            .consts()
            .map(|c| {
                if c.has_non_region_param() {
                    J::Null
                } else {
                    c.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)
                }
            })
            .collect();
        o.push(("cargs", J::A(cargs)));
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            // a tuple-struct or tuple-variant constructor used as a function
            let mut ad = tcx.parent(def);
            if let DefKind::Variant = tcx.def_kind(ad) {
                ad = tcx.parent(ad);
            }
            let adt = tcx.adt_def(ad);
            let vi = adt.variant_index_with_ctor_id(def);
            o.push(("ctor", s(tcx.def_path_str(ad))));
            o.push(("vi", J::I(vi.as_usize() as i128)));
            o.push(("variant", s(adt.variant(vi).name.to_string())));
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            if tcx.is_foreign_item(def) {
                o.push(("foreign", J::B(true)));
            }
            let unsafe_ = tcx.fn_sig(def).skip_binder().safety().is_unsafe();
            o.push(("unsafe", J::B(unsafe_)));
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, args) {
                if inst.def_id() != def {
                    o.push(("rpath", s(tcx.def_path_str(inst.def_id()))));
                    o.push(("rfull", s(tcx.def_path_str_with_args(inst.def_id(), inst.args))));
                    o.push(("rcrate", s(tcx.crate_name(inst.def_id().krate).to_string())));
                }
                o.push(("resolved", J::B(true)));
                o.push(("raw", s(self.raw(inst.def_id()))));
                if self.enqueue(inst, env) {
                    o.push(("key", s(self.ikey(&inst))));
                }
            } else {
                o.push(("resolved", J::B(false)));
            }
        }
        J::O(o)
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let mut o: Vec<(&'static str, J)> = vec![];
            match e {
                ProjectionElem::Deref => o.push(("k", s("deref"))),
                ProjectionElem::Field(f, fty) => {
                    o.push(("k", s("field")));
                    o.push(("i", J::I(f.as_usize() as i128)));
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(VariantIdx::from_usize(0));
                        if !def.is_union() || true {
                            let name = def.variant(vi).fields[f].name.to_string();
                            o.push(("name", s(name)));
                        }
                    }
                    let t = self.ty(fty, env);
                    o.push(("ty", t));
                }
                ProjectionElem::Index(l) => {
                    o.push(("k", s("index")));
                    o.push(("l", J::I(l.as_usize() as i128)));
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    o.push(("k", s("cindex")));
                    o.push(("off", J::I(offset as i128)));
                    o.push(("min", J::I(min_length as i128)));
                    o.push(("from_end", J::B(from_end)));
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    o.push(("k", s("subslice")));
                    o.push(("from", J::I(from as i128)));
                    o.push(("to", J::I(to as i128)));
                    o.push(("from_end", J::B(from_end)));
                }
                ProjectionElem::Downcast(_, vi) => {
                    o.push(("k", s("downcast")));
                    o.push(("i", J::I(vi.as_usize() as i128)));
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        o.push(("name", s(def.variant(vi).name.to_string())));
                    }
                }
                _ => o.push(("k", s("otherproj"))),
            }
            out.push(J::O(o));
            pty = pty.projection_ty(tcx, e);
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(out))])
    }

    fn hex(b: &[u8]) -> String {
        let mut o = String::with_capacity(b.len() * 2);
        for x in b {
            let _ = write!(o, "{:02x}", x);
        }
        o
    }

    fn alloc_bytes(&self, a: &rustc_middle::mir::interpret::Allocation, start: usize, len: usize) -> Option<String> {
        if !a.provenance().ptrs().is_empty() || start + len > a.len() {
            return None;
        }
        Some(Self::hex(a.inspect_with_uninit_and_ptr_outside_interpreter(start..start + len)))
    }

    fn ty_size(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        if t.has_non_region_param() {
            return None;
        }
        self.tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes() as usize)
    }

    // constant memory of type `t` at (alloc, off)
    fn const_mem(&mut self, a: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Null;
        }
        let al = match tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Memory(m)) => m,
            Some(GlobalAlloc::Static(d)) => return J::O(vec![("static", s(tcx.def_path_str(d)))]),
            _ => return J::Null,
        };
        let al = al.inner();
        match t.kind() {
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return J::Null };
                let Some(sz) = self.ty_size(*e, env) else { return J::Null };
                self.const_seq(a, off, n as usize, *e, sz, env, depth)
            }
            ty::Ref(_, inner, _) => {
                let ptrs = al.provenance().ptrs();
                let Some(p) = ptrs.get(&rustc_abi::Size::from_bytes(off as u64)) else { return J::Null };
                let raw = al.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 8);
                let toff = u64::from_le_bytes(raw.try_into().unwrap()) as usize;
                match inner.kind() {
                    ty::Slice(e) => {
                        let raw = al.inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                        let n = u64::from_le_bytes(raw.try_into().unwrap()) as usize;
                        let Some(sz) = self.ty_size(*e, env) else { return J::Null };
                        let v = self.const_seq(p.alloc_id(), toff, n, *e, sz, env, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                    ty::Str => {
                        let raw = al.inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                        let n = u64::from_le_bytes(raw.try_into().unwrap()) as usize;
                        let v = self.const_seq(p.alloc_id(), toff, n, tcx.types.u8, 1, env, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                    _ => {
                        let v = self.const_mem(p.alloc_id(), toff, *inner, env, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let Some(sz) = self.ty_size(t, env) else { return J::Null };
                if off + sz > al.len() {
                    return J::Null;
                }
                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off..off + sz);
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                J::O(vec![("int", J::I(v as i128))])
            }
            ty::Tuple(ts) if ts.is_empty() => J::O(vec![("tuple", J::A(vec![]))]),
            ty::Adt(def, args) if def.is_struct() => {
                let Ok(lay) = tcx.layout_of(env.as_query_input(t)) else { return J::Null };
                let mut fs = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                    let fo = lay.fields.offset(i).bytes() as usize;
                    fs.push(J::A(vec![s(f.name.to_string()), self.const_mem(a, off + fo, ft, env, depth + 1)]));
                }
                J::O(vec![("struct", s(tcx.def_path_str(def.did()))), ("fields", J::A(fs))])
            }
            ty::Adt(def, _) if def.is_enum() => {
                // only fieldless enums
                if def.variants().iter().all(|v| v.fields.is_empty()) {
                    let Some(sz) = self.ty_size(t, env) else { return J::Null };
                    let b = if sz == 0 { &[][..] } else { al.inspect_with_uninit_and_ptr_outside_interpreter(off..off + sz) };
                    let mut v: u128 = 0;
                    for (i, x) in b.iter().enumerate() {
                        v |= (*x as u128) << (8 * i);
                    }
                    J::O(vec![("enumdiscr", J::I(v as i128))])
                } else {
                    J::Null
                }
            }
            _ => J::Null,
        }
    }

    fn const_seq(&mut self, a: rustc_middle::mir::interpret::AllocId, off: usize, n: usize, e: Ty<'tcx>, sz: usize, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if e == tcx.types.u8 {
            if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(a) {
                if let Some(h) = self.alloc_bytes(m.inner(), off, n) {
                    return J::O(vec![("bytes", s(h))]);
                }
            }
            return J::Null;
        }
        let mut v = vec![];
        for i in 0..n.min(4096) {
            v.push(self.const_mem(a, off + i * sz, e, env, depth + 1));
        }
        J::O(vec![("array", J::A(v))])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t, env);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", tj)];
        if let ty::FnDef(def, args) = t.kind() {
            let a = args.no_bound_vars().unwrap_or(tcx.mk_args(&[]));
            let cj = self.callee(*def, a, env);
            o.push(("fn", cj));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("name", s(tcx.def_path_str_with_args(u.def, u.args))));
            } else {
                let pi = u.promoted.unwrap().as_usize();
                o.push(("promoted", J::I(pi as i128)));
                let own = Instance::new_raw(u.def, u.args);
                o.push(("pkey", J::S(format!("{}::promoted[{}]", self.ikey(&own), pi))));
            }
        }
        if !c.const_.has_non_region_param() {
            let sp = c.span;
            match c.const_.eval(tcx, env, sp) {
                Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                    let v = i.to_bits(i.size());
                    if let ty::Adt(..) = t.kind() {
                        o.push(("scalaradt", J::S(format!("{}", v))));
                    } else {
                        o.push(("int", J::S(format!("{}", v))));
                    }
                }
                Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                        let v = self.const_mem(prov.alloc_id(), off.bytes() as usize, *inner, env, 0);
                        o.push(("mem", J::O(vec![("ref", v)])));
                    }
                }
                Ok(ConstValue::ZeroSized) => o.push(("zst", J::B(true))),
                Ok(ConstValue::Slice { alloc_id, meta }) => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        let v = match inner.kind() {
                            ty::Str => self.const_seq(alloc_id, 0, meta as usize, tcx.types.u8, 1, env, 0),
                            ty::Slice(e) => {
                                let sz = self.ty_size(*e, env).unwrap_or(1);
                                self.const_seq(alloc_id, 0, meta as usize, *e, sz, env, 0)
                            }
                            _ => J::Null,
                        };
                        o.push(("mem", J::O(vec![("ref", v)])));
                    }
                }
                Ok(ConstValue::Indirect { alloc_id, offset }) => {
                    let v = self.const_mem(alloc_id, offset.bytes() as usize, t, env, 0);
                    o.push(("mem", v));
                }
                Err(_) => o.push(("err", J::B(true))),
            }
        } else {
            o.push(("generic", s(format!("{}", c.const_))));
        }
        J::O(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(p, body, env);
                J::O(vec![("k", s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p, body, env);
                J::O(vec![("k", s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("runtimechecks"))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(o, body, env))]),
            Rvalue::Repeat(o, n) => {
                let n = if n.has_non_region_param() { None } else { n.try_to_target_usize(tcx) };
                J::O(vec![
                    ("k", s("repeat")),
                    ("o", self.operand(o, body, env)),
                    ("n", n.map(|x| J::I(x as i128)).unwrap_or(J::Null)),
                ])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p, body, env)),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("k", s("ref")),
                ("reborrow", J::B(true)),
                ("mut", J::B(m.is_mut())),
                ("p", self.place(p, body, env)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(p, body, env))]),
            Rvalue::Cast(ck, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{:?}", ck))),
                    ("o", self.operand(o, body, env)),
                    ("from", self.ty(from, env)),
                    ("ty", self.ty(*t, env)),
                ])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                J::O(vec![
                    ("k", s("bin")),
                    ("op", s(format!("{:?}", b))),
                    ("a", self.operand(&ops.0, body, env)),
                    ("b", self.operand(&ops.1, body, env)),
                    ("ty", self.ty(t, env)),
                ])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                J::O(vec![
                    ("k", s("un")),
                    ("op", s(format!("{:?}", u))),
                    ("o", self.operand(o, body, env)),
                    ("ty", self.ty(t, env)),
                ])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::O(vec![("k", s("discr")), ("p", self.place(p, body, env)), ("ty", self.ty(t, env))])
            }
            Rvalue::Aggregate(ak, ops) => {
                let mut o: Vec<(&'static str, J)> = vec![("k", s("agg"))];
                match &**ak {
                    AggregateKind::Array(t) => {
                        o.push(("a", s("array")));
                        let t = self.ty(*t, env);
                        o.push(("ety", t));
                    }
                    AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = tcx.adt_def(*d);
                        o.push(("a", s("adt")));
                        o.push(("path", s(tcx.def_path_str(*d))));
                        o.push(("enum", J::B(def.is_enum())));
                        o.push(("vi", J::I(vi.as_usize() as i128)));
                        o.push(("variant", s(def.variant(*vi).name.to_string())));
                        let at = Ty::new_adt(tcx, def, args);
                        let at = self.ty(at, env);
                        o.push(("ty", at));
                        let names: Vec<J> = def.variant(*vi).fields.iter().map(|f| s(f.name.to_string())).collect();
                        o.push(("names", J::A(names)));
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("a", s("closure")));
                        let inst = Instance::new_raw(*d, args);
                        self.enqueue(inst, env);
                        o.push(("key", s(self.ikey(&inst))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("a", s("rawptr"))),
                    _ => o.push(("a", s("other"))),
                }
                let v: Vec<J> = ops.iter().map(|x| self.operand(x, body, env)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p, body, env);
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", pj)]))])
            }
            _ => J::O(vec![("k", s("otherrv")), ("dbg", s(format!("{:?}", r)))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty, env);
            locals.push(J::O(vec![
                ("ty", t),
                ("n", names.get(&i.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null)),
            ]));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body, env);
                        let r = self.rvalue(&b.1, body, env);
                        st.push(J::A(vec![p, r, s(self.span(x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body, env);
                        st.push(J::A(vec![
                            p,
                            J::O(vec![("k", s("setdiscr")), ("vi", J::I(variant_index.as_usize() as i128))]),
                            s(self.span(x.source_info.span)),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbi = |b: BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bbi(*target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let d = self.operand(discr, body, env);
                    let ts: Vec<J> =
                        targets.iter().map(|(v, b)| J::A(vec![J::S(format!("{}", v)), bbi(b)])).collect();
                    vec![
                        ("k", s("switch")),
                        ("d", d),
                        ("ty", self.ty(dty, env)),
                        ("ts", J::A(ts)),
                        ("other", bbi(targets.otherwise())),
                    ]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => {
                    vec![("k", s("drop")), ("p", self.place(place, body, env)), ("t", bbi(*target))]
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t, env)
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("at", J::A(at)),
                        ("d", self.place(destination, body, env)),
                        ("dt", self.ty(dt, env)),
                        ("t", target.map(bbi).unwrap_or(J::Null)),
                        ("fs", s(self.span(*fn_span))),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                    ("k", s("assert")),
                    ("c", self.operand(cond, body, env)),
                    ("e", J::B(*expected)),
                    ("m", s(format!("{:?}", msg).chars().take(40).collect::<String>())),
                    ("t", bbi(*target)),
                ],
                TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", bbi(*real_target))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", bbi(*real_target))],
                _ => vec![("k", s("otherterm"))],
            };
            let mut tj = tj;
            tj.push(("sp", s(sp)));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(tj))]));
        }
        vec![
            ("argc", J::I(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn function(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let def = inst.def_id();
        let body = tcx.instance_mir(inst.def).clone();
        let body: Body<'tcx> =
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body));
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(self.ikey(&inst))),
            ("path", s(tcx.def_path_str(def))),
            ("raw", s(self.raw(def))),
            ("crate", s(tcx.crate_name(def.krate).to_string())),
            ("name", s(tcx.opt_item_name(def).map(|x| x.to_string()).unwrap_or_default())),
            ("span", s(self.span(tcx.def_span(def)))),
            ("generic", J::B(inst.args.has_non_region_param())),
        ];
        let targs: Vec<J> = inst.args.types().map(|t| s(format!("{}", t))).collect();
        o.push(("targs", J::A(targs)));
        if tcx.is_closure_like(def) {
            o.push(("closure", J::B(true)));
        } else if !def.is_local() {
            o.push(("ext", J::B(true)));
        } else {
            let vis = tcx.visibility(def);
            o.push(("pub", J::B(vis.is_public())));
            let eff = tcx.effective_visibilities(()).is_reachable(def.expect_local());
            o.push(("reachable", J::B(eff)));
            let sg = tcx.fn_sig(def).skip_binder();
            o.push(("unsafe", J::B(sg.safety().is_unsafe())));
            if let Some(imp) = tcx.trait_impl_of_assoc(def) {
                let tr = tcx.impl_trait_ref(imp);
                o.push(("impl_trait", s(tcx.def_path_str(tr.skip_binder().def_id))));
                o.push(("impl_self", s(format!("{}", tr.skip_binder().self_ty()))));
            } else if let Some(imp) = tcx.inherent_impl_of_assoc(def) {
                o.push(("impl_self", s(format!("{}", tcx.type_of(imp).skip_binder()))));
            } else if let Some(tr) = tcx.trait_of_assoc(def) {
                o.push(("trait_default", s(tcx.def_path_str(tr))));
            }
        }
        let b = self.body(&body, env);
        o.extend(b);
        self.fns.push(J::O(o));
        // constants promoted out of a generic body cannot be evaluated here: export their bodies
        if def.is_local() && inst.args.has_non_region_param() {
            let pm = tcx.promoted_mir(def).clone();
            for (i, pb) in pm.iter_enumerated() {
                let pb: Body<'tcx> =
                    inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb.clone()));
                let mut o: Vec<(&'static str, J)> = vec![
                    ("key", J::S(format!("{}::promoted[{}]", self.ikey(&inst), i.as_usize()))),
                    ("path", J::S(format!("{}::promoted[{}]", tcx.def_path_str(def), i.as_usize()))),
                    ("crate", s(tcx.crate_name(def.krate).to_string())),
                    ("name", s("")),
                    ("span", s(self.span(tcx.def_span(def)))),
                    ("generic", J::B(true)),
                    ("ext", J::B(true)),
                    ("promotedbody", J::B(true)),
                    ("targs", J::A(vec![])),
                ];
                let b = self.body(&pb, env);
                o.extend(b);
                self.fns.push(J::O(o));
            }
        }
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut d = Dump {
            tcx,
            types: HashMap::new(),
            type_js: vec![],
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fns: vec![],
        };
        for ld in tcx.mir_keys(()) {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if !tcx.is_mir_available(def) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = TypingEnv::post_analysis(tcx, def);
            let inst = Instance::new_raw(def, args);
            d.enqueue(inst, env);
        }
        while let Some((i, env)) = d.queue.pop_front() {
            d.function(i, env);
        }
        // named constants
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let def = ld.to_def_id();
            if matches!(tcx.def_kind(def), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                if tcx.generics_of(def).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, def);
                if let Ok(v) = tcx.const_eval_poly(def) {
                    let mut o = vec![("path", s(tcx.def_path_str(def))), ("span", s(d.span(tcx.def_span(def))))];
                    match v {
                        ConstValue::Scalar(Scalar::Int(i)) => o.push(("int", s(format!("{}", i.to_bits(i.size()))))),
                        ConstValue::Slice { alloc_id, meta } => {
                            let v = d.const_seq(alloc_id, 0, meta as usize, tcx.types.u8, 1, env, 0);
                            o.push(("mem", v));
                        }
                        ConstValue::Indirect { alloc_id, offset } => {
                            let v = d.const_mem(alloc_id, offset.bytes() as usize, t, env, 0);
                            o.push(("mem", v));
                        }
                        _ => {}
                    }
                    consts.push(J::O(o));
                }
            }
        }
        // foreign items declared in this crate
        let mut foreign = vec![];
        for id in tcx.hir_crate_items(()).foreign_items() {
            let def = id.owner_id.to_def_id();
            if let DefKind::Fn = tcx.def_kind(def) {
                let sg = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                foreign.push(J::O(vec![
                    ("path", s(tcx.def_path_str(def))),
                    ("name", s(tcx.item_name(def).to_string())),
                    ("sig", s(format!("{}", sg))),
                ]));
            }
        }
        let fns = std::mem::take(&mut d.fns);
        let types = std::mem::take(&mut d.type_js);
        let root = J::O(vec![
            ("crate", s(krate.clone())),
            ("types", J::A(types)),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("foreign", J::A(foreign)),
        ]);
        let mut o = String::new();
        put(&mut o, &root);
        let path = format!("{}/{}.json", self.out, krate);
        std::fs::write(&path, o).expect("write facts");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let mut name = String::new();
    let mut is_lib = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--crate-type" && i + 1 < args.len() && args[i + 1] != "bin" {
            is_lib = true;
        }
    }
    let hit = is_lib && !out.is_empty() && want.split(',').any(|x| x == name);
    if hit {
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    }
}
