#![feature(rustc_private)]
//! rustc driver used as RUSTC_WRAPPER: for the crate named in VDRIVER_CRATE it dumps, as JSON, the
//! resolved generic MIR of every function and of what it calls, plus crate-wide facts.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_crate_prefix};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb;

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(tcx.def_path_str(d))))
}
fn tystr<'tcx>(t: impl std::fmt::Display) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_crate_prefix!(t.to_string())))
}
fn span_str(tcx: TyCtxt<'_>, s: Span) -> String {
    let s = s.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_rows: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashSet<Instance<'tcx>>,
    allow: Vec<String>,
    shallow: bool,
}

impl<'tcx> Dump<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::obj(vec![("v", J::s(v.to_string()))]);
        }
        J::obj(vec![("p", J::s(tystr(c)))])
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => {
                    let i = self.ty(t);
                    v.push(J::obj(vec![("t", J::n(i))]))
                }
                ty::GenericArgKind::Const(c) => {
                    let c = self.cst(c);
                    v.push(J::obj(vec![("c", c)]))
                }
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_rows.len();
        self.tys.insert(t, i);
        self.ty_rows.push(J::Null);
        let mut o = vec![("s", J::s(tystr(t)))];
        let k = match *t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Str => "str",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Never => "never",
            ty::Param(_) => "param",
            ty::Ref(_, x, m) => {
                let x = self.ty(x);
                o.push(("e", J::n(x)));
                o.push(("m", J::B(m.is_mut())));
                "ref"
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(x);
                o.push(("e", J::n(x)));
                o.push(("m", J::B(m.is_mut())));
                "ptr"
            }
            ty::Slice(x) => {
                let x = self.ty(x);
                o.push(("e", J::n(x)));
                "slice"
            }
            ty::Array(x, c) => {
                let x = self.ty(x);
                let c = self.cst(c);
                o.push(("e", J::n(x)));
                o.push(("n", c));
                "array"
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("f", J::A(v)));
                "tuple"
            }
            ty::Adt(def, args) => {
                o.push(("d", J::s(path(self.tcx, def.did()))));
                let a = self.gargs(args);
                o.push(("a", a));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("box", J::B(t.is_box())));
                let local = def.did().is_local();
                let small = def.is_enum() || local || def.variants().iter().all(|v| v.fields.len() <= 6);
                if small {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            // field types are only needed for shapes we own or plain enums
                            let fty = if local || def.is_enum() {
                                let ft = f.ty(self.tcx, args);
                                let ft = self.tcx.try_normalize_erasing_regions(self.env, ft);
                                match ft { Ok(ft) => J::n(self.ty(ft)), Err(_) => J::Null }
                            } else {
                                J::Null
                            };
                            fs.push(J::A(vec![J::s(f.name.to_string()), fty]));
                        }
                        vs.push(J::A(vec![J::s(v.name.to_string()), J::A(fs)]));
                    }
                    o.push(("v", J::A(vs)));
                    if def.is_enum() {
                        let ds = def.discriminants(self.tcx).map(|(_, d)| J::s(d.val.to_string())).collect();
                        o.push(("disc", J::A(ds)));
                    }
                }
                "adt"
            }
            ty::Closure(d, args) => {
                o.push(("d", J::s(path(self.tcx, d))));
                let ups = args.as_closure().upvar_tys();
                let v = ups.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("up", J::A(v)));
                let inst = Instance::resolve_closure(self.tcx, d, args, ty::ClosureKind::FnOnce);
                let inst = match inst.def { InstanceKind::Item(_) => inst, _ => Instance::new_raw(d, args) };
                let key = self.inst_key(inst);
                o.push(("key", J::s(key)));
                o.push(("ck", J::s(format!("{:?}", args.as_closure().kind()))));
                self.enqueue(inst, 0);
                "closure"
            }
            ty::FnDef(d, args) => {
                o.push(("d", J::s(path(self.tcx, d))));
                let c = self.callee(d, args.no_bound_vars().unwrap_or(ty::List::empty()));
                o.push(("callee", c));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Alias(..) => "alias",
            ty::Dynamic(..) => "dyn",
            _ => "other",
        };
        o.push(("k", J::s(k)));
        self.ty_rows[i] = J::obj(o);
        i
    }
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let kind = match i.def {
            InstanceKind::Item(_) => String::new(),
            ref other => format!("#{}", format!("{:?}", other).split('(').next().unwrap()),
        };
        let mut args = vec![];
        for a in i.args.iter() {
            if a.as_region().is_none() { args.push(tystr(a)); }
        }
        format!("{}{}<{}>", path(self.tcx, i.def_id()), kind, args.join(","))
    }
    fn allowed(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = path(self.tcx, d);
        let p = p.trim_start_matches('<');
        self.allow.iter().any(|a| p.starts_with(a.as_str()) || p.contains(&format!("as {}", a)))
    }
    fn enqueue(&mut self, i: Instance<'tcx>, depth: usize) -> bool {
        let InstanceKind::Item(d) = i.def else { return false };
        if !self.allowed(d) || !self.tcx.is_mir_available(d) { return false; }
        if self.tcx.is_foreign_item(d) { return false; }
        match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            DefKind::Ctor(..) => return false,
            _ => return false,
        }
        if self.tcx.intrinsic(d).is_some() { return false; }
        if self.shallow && d.is_local() && i.args.iter().any(|a| a.as_type().is_some() || a.as_const().is_some())
            && self.tcx.def_kind(d) != DefKind::Closure { return false; }
        if depth > 24 { return false; }
        if self.seen.insert(i) { self.queue.push_back((i, depth)); }
        true
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", J::s(path(tcx, d))), ("name", J::s(tcx.item_name(d).to_string()))];
        let a = self.gargs(args);
        o.push(("args", a));
        o.push(("krate", J::s(tcx.crate_name(d.krate).to_string())));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, t))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", J::s(tystr(st))));
            if let Some(t) = tcx.impl_opt_trait_ref(im) { o.push(("impl_trait", J::s(path(tcx, t.skip_binder().def_id)))); }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
        }
        let ea = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, ea) {
            let kind = format!("{:?}", inst.def).split('(').next().unwrap().to_string();
            o.push(("ikind", J::s(kind)));
            o.push(("rpath", J::s(path(tcx, inst.def_id()))));
            o.push(("rkrate", J::s(tcx.crate_name(inst.def_id().krate).to_string())));
            if let Some(im) = tcx.impl_of_assoc(inst.def_id()) {
                if let Some(t) = tcx.impl_opt_trait_ref(im) { o.push(("rtrait", J::s(path(tcx, t.skip_binder().def_id)))); }
            }
            if self.enqueue(inst, 0) {
                let k = self.inst_key(inst);
                o.push(("key", J::s(k)));
            }
        }
        J::obj(o)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let base = pty.ty;
            pty = pty.projection_ty(self.tcx, e);
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let name = match base.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty_variant(&p.projection, e, base, def);
                            vi.map(|x| x).unwrap_or_default()
                        }
                        _ => String::new(),
                    };
                    let bt = self.ty(base);
                    J::A(vec![J::s("f"), J::n(f.as_usize()), J::n(t), J::s(name), J::n(bt)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::A(vec![J::s("ci"), J::n(offset as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("sub"), J::n(from as usize), J::n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, i) => {
                    let bt = self.ty(base);
                    J::A(vec![J::s("d"), J::s(n.map(|s| s.to_string()).unwrap_or_default()), J::n(i.as_usize()), J::n(bt)])
                }
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(v)
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.ty(c.const_.ty());
        let mut o = vec![("ty", J::n(t))];
        match c.const_ {
            mir::Const::Ty(_, ct) => {
                let x = self.cst(ct);
                o.push(("c", x));
            }
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::n(p.as_usize())));
                    let inst = Instance::new_raw(u.def, u.args);
                    let k = self.inst_key(inst);
                    o.push(("of", J::s(k)));
                } else if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                    self.cval(v, c.const_.ty(), &mut o);
                } else {
                    o.push(("uneval", J::s(path(tcx, u.def))));
                    let a = self.gargs(u.args);
                    o.push(("args", a));
                }
            }
            mir::Const::Val(v, ty) => self.cval(v, ty, &mut o),
        }
        J::obj(vec![("const", J::obj(o))])
    }
    fn cval(&mut self, v: ConstValue, ty: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match ty.kind() {
                    ty::Float(ty::FloatTy::F32) => o.push(("f", J::s(format!("{:?}", f32::from_bits(bits as u32))))),
                    ty::Float(ty::FloatTy::F64) => o.push(("f", J::s(format!("{:?}", f64::from_bits(bits as u64))))),
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let sh = 128 - sz;
                        let sv = ((bits << sh) as i128) >> sh;
                        o.push(("i", J::s(sv.to_string())))
                    }
                    ty::Adt(..) => { o.push(("adtbits", J::s(bits.to_string()))); self.destructure(v, ty, o); }
                    _ => o.push(("i", J::s(bits.to_string()))),
                }
            }
            ConstValue::Scalar(_) => o.push(("ptr", J::B(true))),
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    o.push(("str", J::s(String::from_utf8_lossy(b).to_string())))
                } else { o.push(("opaque", J::s("slice"))) }
            }
            _ => {
                o.push(("opaque", J::s("indirect")));
                self.destructure(v, ty, o);
            }
        }
    }
    fn destructure(&mut self, v: ConstValue, ty: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
                // plain ADTs / tuples: destructure when possible
                if !ty.has_param_like() {
                    if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                        let mut fs = vec![];
                        for (fv, ft) in d.fields.iter() {
                            let mut fo = vec![];
                            let ti = self.ty(*ft);
                            fo.push(("ty", J::n(ti)));
                            self.cval(*fv, *ft, &mut fo);
                            fs.push(J::obj(fo));
                        }
                        o.push(("fields", J::A(fs)));
                        if let Some(vi) = d.variant { o.push(("variant", J::n(vi.as_usize()))); }
                    }
                }
    }
    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let x = self.place(b, p); J::obj(vec![("cp", x)]) }
            Operand::Move(p) => { let x = self.place(b, p); J::obj(vec![("mv", x)]) }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(c) => J::obj(vec![("rtc", J::s(format!("{:?}", c)))]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(b, o)]),
            Rvalue::Repeat(o, c) => { let o = self.operand(b, o); let c = self.cst(*c); J::A(vec![J::s("repeat"), o, c]) }
            Rvalue::Ref(_, k, p) => { let x = self.place(b, p); J::A(vec![J::s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), x]) }
            Rvalue::RawPtr(k, p) => { let x = self.place(b, p); J::A(vec![J::s("ref"), J::B(matches!(k, RawPtrKind::Mut)), x]) }
            Rvalue::Reborrow(_, m, p) => { let x = self.place(b, p); J::A(vec![J::s("reborrow"), J::B(m.is_mut()), x]) }
            Rvalue::Cast(k, o, t) => {
                let st = self.ty(o.ty(b, self.tcx));
                let o = self.operand(b, o);
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::s(format!("{:?}", k)), o, J::n(t), J::n(st)])
            }
            Rvalue::BinaryOp(op, xs) => {
                let t = self.ty(xs.0.ty(b, self.tcx));
                let x = self.operand(b, &xs.0);
                let y = self.operand(b, &xs.1);
                J::A(vec![J::s("bin"), J::s(format!("{:?}", op)), x, y, J::n(t)])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = self.ty(x.ty(b, self.tcx));
                let x = self.operand(b, x);
                J::A(vec![J::s("un"), J::s(format!("{:?}", op)), x, J::n(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = self.ty(p.ty(b, self.tcx).ty);
                let x = self.place(b, p);
                J::A(vec![J::s("discr"), x, J::n(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![J::s("array"), J::n(t)]) }
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let t = self.ty(self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip());
                        let names = v.fields.iter().map(|f| J::s(f.name.to_string())).collect();
                        J::A(vec![J::s("adt"), J::s(path(self.tcx, *d)), J::n(vi.as_usize()), J::s(v.name.to_string()), J::A(names), J::n(t),
                            fi.map(|f| J::n(f.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(self.tcx, *d, args));
                        J::A(vec![J::s("closure"), J::n(t)])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(b, o)).collect();
                J::A(vec![J::s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => { let x = self.place(b, p); J::A(vec![J::s("use"), J::obj(vec![("cp", x)])]) }
            _ => J::A(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let locals = b.local_decls.iter().map(|l| J::n(self.ty(l.ty))).collect();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(b, &x.0);
                        let r = self.rvalue(b, &x.1);
                        st.push(J::A(vec![J::s("="), p, r, J::s(span_str(tcx, s.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        st.push(J::A(vec![J::s("setd"), p, J::n(variant_index.as_usize())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        if !matches!(**i, NonDivergingIntrinsic::Assume(_)) { st.push(J::A(vec![J::s("intr"), J::s(format!("{:?}", i))])); }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = span_str(tcx, term.source_info.span);
            let exp = term.source_info.span.from_expansion();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), J::n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), J::n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), J::n(real_target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = self.ty(discr.ty(b, tcx));
                    let d = self.operand(b, discr);
                    let v = targets.iter().map(|(v, t)| J::A(vec![J::s(v.to_string()), J::n(t.as_usize())])).collect();
                    J::A(vec![J::s("switch"), d, J::A(v), J::n(targets.otherwise().as_usize()), J::n(t)])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(b, place);
                    J::A(vec![J::s("drop"), J::n(target.as_usize()), p])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b, tcx);
                    let fty = self.norm(fty);
                    let c = match fty.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap_or(ty::List::empty())),
                        _ => { let o = self.operand(b, func); J::obj(vec![("dyn", o)]) }
                    };
                    let av = args.iter().map(|a| self.operand(b, &a.node)).collect();
                    let at = args.iter().map(|a| { let t = a.node.ty(b, tcx); J::n(self.ty(t)) }).collect();
                    let d = self.place(b, destination);
                    let dt = self.ty(destination.ty(b, tcx).ty);
                    J::A(vec![J::s("call"), c, J::A(av), d, target.map(|t| J::n(t.as_usize())).unwrap_or(J::Null), J::A(at), J::n(dt)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(b, cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(b, index), self.operand(b, len)]),
                        AssertKind::Overflow(op, l, r) => (format!("overflow{:?}", op), vec![self.operand(b, l), self.operand(b, r)]),
                        AssertKind::OverflowNeg(l) => ("overflowNeg".into(), vec![self.operand(b, l)]),
                        AssertKind::DivisionByZero(l) => ("div0".into(), vec![self.operand(b, l)]),
                        AssertKind::RemainderByZero(l) => ("rem0".into(), vec![self.operand(b, l)]),
                        other => (format!("other{:?}", std::mem::discriminant(other)), vec![]),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), J::s(k), J::A(ops), J::n(target.as_usize())])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                k => J::A(vec![J::s("other"), J::s(format!("{:?}", k))]),
            };
            blocks.push(J::obj(vec![("s", J::A(st)), ("t", t), ("sp", J::s(sp)), ("exp", J::B(exp)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::obj(vec![
            ("argc", J::n(b.arg_count)),
            ("spread", b.spread_arg.map(|l| J::n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::O(names.into_iter().map(|(k, v)| (k.to_string(), J::s(v))).collect())),
            ("blocks", J::A(blocks)),
            ("span", J::s(span_str(tcx, b.span))),
        ])
    }
    fn run(&mut self) -> Vec<(String, J)> {
        let mut out = vec![];
        let tcx = self.tcx;
        while let Some((i, _)) = self.queue.pop_front() {
            let InstanceKind::Item(d) = i.def else { continue };
            let key = self.inst_key(i);
            let env = self.env;
            let inst_body = |b: &Body<'tcx>| -> Body<'tcx> {
                i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()))
                    .unwrap_or_else(|_| b.clone())
            };
            let b = inst_body(tcx.optimized_mir(d));
            let mut o = match self.body(&b) { J::O(o) => o, _ => unreachable!() };
            let proms: Vec<Body<'tcx>> = tcx.promoted_mir(d).iter().map(|p| inst_body(p)).collect();
            let pv = proms.iter().map(|p| self.body(p)).collect();
            o.push(("promoted".into(), J::A(pv)));
            o.push(("path".into(), J::s(path(tcx, d))));
            o.push(("krate".into(), J::s(tcx.crate_name(d.krate).to_string())));
            o.push(("closure".into(), J::B(tcx.def_kind(d) == DefKind::Closure)));
            out.push((key, J::O(o)));
        }
        out
    }
}
trait HasParam { fn has_param_like(&self) -> bool; }
impl<'tcx> HasParam for Ty<'tcx> {
    fn has_param_like(&self) -> bool { use rustc_middle::ty::TypeVisitableExt; self.has_param() || self.has_aliases() }
}
fn pty_variant<'tcx>(proj: &ty::List<PlaceElem<'tcx>>, e: PlaceElem<'tcx>, _base: Ty<'tcx>, def: &ty::AdtDef<'tcx>) -> Option<String> {
    // the field name; for enums look for the downcast right before
    let ProjectionElem::Field(f, _) = e else { return None };
    if def.is_enum() {
        let mut last = None;
        for p in proj.iter() {
            if let ProjectionElem::Downcast(_, i) = p { last = Some(i); }
            if p == e { break; }
        }
        let v = def.variant(last?);
        return v.fields.get(f).map(|f| f.name.to_string());
    }
    def.non_enum_variant().fields.get(f).map(|f| f.name.to_string())
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let out = std::env::var("VDRIVER_OUT").expect("VDRIVER_OUT");
        let allow: Vec<String> = std::env::var("VDRIVER_ALLOW").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut roots = vec![];
        let vis = tcx.effective_visibilities(());
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
            if !tcx.is_mir_available(d) { continue; }
            let generics = tcx.generics_of(d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let generic = args.iter().any(|a| a.as_type().is_some() || a.as_const().is_some());
            let _ = generics;
            let mut dump = Dump {
                tcx, env: TypingEnv::post_analysis(tcx, d), tys: HashMap::new(), ty_rows: vec![],
                queue: VecDeque::new(), seen: HashSet::new(), allow: allow.clone(), shallow: !generic,
            };
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let key = dump.inst_key(inst);
            dump.seen.insert(inst);
            dump.queue.push_back((inst, 0));
            let bodies = dump.run();
            let mut o = vec![
                ("path", J::s(path(tcx, d))),
                ("key", J::s(key)),
                ("generic", J::B(generic)),
                ("public", J::B(vis.is_reachable(*ld))),
                ("span", J::s(span_str(tcx, tcx.def_span(d)))),
                ("bodies", J::O(bodies)),
                ("types", J::A(std::mem::take(&mut dump.ty_rows))),
            ];
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::s(tystr(st))));
                if let Some(t) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", J::s(tystr(t.instantiate_identity().skip_norm_wip()))));
                }
            }
            let gens = args.iter().filter(|a| a.as_region().is_none()).map(|a| J::s(tystr(a))).collect();
            o.push(("generics", J::A(gens)));
            roots.push(J::obj(o));
        }
        let facts = facts(tcx);
        let doc = J::obj(vec![("crate", J::s(name)), ("roots", J::A(roots)), ("facts", facts)]);
        std::fs::write(&out, doc.to_string()).expect("write dump");
        Compilation::Continue
    }
}

struct UnsafeV<'tcx> { tcx: TyCtxt<'tcx>, hits: Vec<J> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.hits.push(J::s(format!("unsafe block at {}", span_str(self.tcx, b.span))));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

/// the where clauses in force, sorted
fn bounds(tcx: TyCtxt<'_>, d: DefId) -> J {
    let mut v: Vec<String> = tcx.clauses_of(d).instantiate_identity(tcx).into_iter().map(|(p, _)| tystr(p.skip_norm_wip())).collect();
    v.sort();
    J::A(v.into_iter().map(J::s).collect())
}

fn facts<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let mut uv = UnsafeV { tcx, hits: vec![] };
    tcx.hir_walk_toplevel_module(&mut uv);
    let mut statics = vec![];
    let mut unsafe_items = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d));
                statics.push(J::obj(vec![("path", J::s(path(tcx, d))), ("mut", J::B(mutability.is_mut())), ("freeze", J::B(freeze)),
                    ("ty", J::s(tystr(t))), ("tl", J::B(tcx.is_thread_local_static(d))), ("span", J::s(span_str(tcx, tcx.def_span(d))))]));
            }
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_unsafe() {
                    unsafe_items.push(J::s(format!("unsafe fn {} at {}", path(tcx, d), span_str(tcx, tcx.def_span(d)))));
                }
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", J::s(tystr(st))), ("span", J::s(span_str(tcx, tcx.def_span(d))))];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    o.push(("trait", J::s(tystr(h.trait_ref.instantiate_identity().skip_norm_wip()))));
                    o.push(("trait_path", J::s(path(tcx, h.trait_ref.skip_binder().def_id))));
                    if h.safety.is_unsafe() { unsafe_items.push(J::s(format!("unsafe impl for {} at {}", tystr(st), span_str(tcx, tcx.def_span(d))))); }
                }
                let items = tcx.associated_item_def_ids(d).iter().map(|i| J::s(path(tcx, *i))).collect();
                o.push(("items", J::A(items)));
                o.push(("bounds", bounds(tcx, d)));
                let fns = tcx.associated_items(d).in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }) && (of_trait || i.visibility(tcx).is_public()))
                    .map(|i| J::A(vec![J::s(path(tcx, i.def_id)), J::s(tystr(tcx.fn_sig(i.def_id).instantiate_identity().skip_norm_wip())), bounds(tcx, i.def_id)])).collect();
                o.push(("fns", J::A(fns)));
                impls.push(J::obj(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let env = TypingEnv::post_analysis(tcx, d);
                let def = tcx.adt_def(d);
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let mut fs = vec![];
                for v in def.variants() { for f in &v.fields {
                    let t = tcx.try_normalize_erasing_regions(env, f.ty(tcx, args)).unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                    // walk for interior mutability / raw pointers / Rc
                    let mut bad = vec![];
                    for g in t.walk() { if let Some(x) = g.as_type() {
                        match x.kind() { ty::RawPtr(..) => bad.push(J::s(tystr(x))),
                            ty::Adt(a, _) => { let p = path(tcx, a.did());
                                if a.is_unsafe_cell() || p.contains("::cell::") || p.contains("::sync::") || p.contains("::rc::") || p.contains("UnsafeCell") { bad.push(J::s(p)); } }
                            _ => {} } } }
                    fs.push(J::obj(vec![("variant", J::s(v.name.to_string())), ("name", J::s(f.name.to_string())), ("ty", J::s(tystr(t))), ("bad", J::A(bad)),
                        ("vis", J::s(format!("{:?}", f.vis)))]));
                } }
                adts.push(J::obj(vec![("path", J::s(path(tcx, d))), ("fields", J::A(fs)), ("span", J::s(span_str(tcx, tcx.def_span(d)))),
                    ("public", J::B(tcx.effective_visibilities(()).is_reachable(id)))]));
            }
            _ => {}
        }
    }
    // public names reachable by path from the crate root
    let mut exports = vec![];
    let mut stack: Vec<(DefId, String)> = vec![(rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), "crate".to_string())];
    let mut seen: HashSet<(DefId, String)> = HashSet::new();
    while let Some((m, p)) = stack.pop() {
        if !seen.insert((m, p.clone())) { continue; }
        let Some(lm) = m.as_local() else { continue };
        for ch in tcx.module_children_local(lm) {
            if !ch.vis.is_public() { continue; }
            let q = format!("{}::{}", p, ch.ident);
            if let Res::Def(k, d) = ch.res {
                match k {
                    DefKind::Mod => { if d.is_local() { exports.push(J::A(vec![J::s(q.clone()), J::s("mod"), J::s(path(tcx, d))])); stack.push((d, q)); } }
                    DefKind::Fn => {
                        let sig = tystr(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
                        exports.push(J::A(vec![J::s(q), J::s("fn"), J::s(path(tcx, d)), J::s(sig), bounds(tcx, d)]))
                    }
                    k => exports.push(J::A(vec![J::s(q), J::s(format!("{:?}", k)), J::s(path(tcx, d))])),
                }
            }
        }
    }
    J::obj(vec![("unsafe", J::A(uv.hits)), ("unsafe_items", J::A(unsafe_items)), ("statics", J::A(statics)), ("adts", J::A(adts)),
        ("impls", J::A(impls)), ("exports", J::A(exports)),
        ("linked", J::A(tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect()))])
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("VDRIVER_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) && !args.iter().any(|a| a == "--test");
    if is {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N; impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
    let _ = LocalDefId::to_def_id;
}
