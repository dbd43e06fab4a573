//! rustc driver that dumps the resolved MIR of the crate under analysis as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; active for the crate named by VMIR_CRATE, writes VMIR_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J { S(String), N(i128), B(bool), A(Vec<J>), O(Vec<(&'static str, J)>), Null }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => { let _ = write!(o, "{}", i); }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "\"{}\":", k); x.w(o); } o.push('}'); }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adtmap: HashMap<DefId, usize>,
    trans: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", f, loc.line))
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> usize {
        if let Some(i) = self.adtmap.get(&def.did()) { return *i; }
        let i = self.adts.len();
        self.adts.push(J::Null);
        self.adtmap.insert(def.did(), i);
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![] };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if def.did().is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    n(self.ty(t))
                } else { J::Null };
                fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", t), ("pub", J::B(f.vis.is_public()))]));
            }
            let d = discrs.get(vi.as_usize()).map(|d| J::N(*d as i128)).unwrap_or(J::Null);
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
        }
        let vis = tcx.visibility(def.did()).is_public();
        self.adts[i] = J::O(vec![
            ("path", s(self.path(def.did()))),
            ("local", J::B(def.did().is_local())),
            ("pub", J::B(vis)),
            ("exported", J::B(def.did().as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(true))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("v", J::A(vs)),
        ]);
        i
    }

    fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(n(self.ty(t))); }
            else if let Some(c) = a.as_const() { v.push(s(format!("{}", c))); }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tymap.insert(t, i);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        match t.kind() {
            ty::Adt(def, args) => {
                let d = self.adt(*def);
                o.push(("k", s("adt"))); o.push(("adt", n(d)));
                o.push(("a", self.generic_args(args)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner); o.push(("t", n(x)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*inner); o.push(("t", n(x)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(v)));
            }
            ty::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(*x); o.push(("t", n(x))); }
            ty::Array(x, l) => {
                o.push(("k", s("array"))); let x = self.ty(*x); o.push(("t", n(x)));
                o.push(("len", s(format!("{}", l))));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(*d))));
                let ups = args.as_closure().upvar_tys();
                let v = ups.iter().map(|x| n(self.ty(x))).collect();
                o.push(("up", J::A(v)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(*d))));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                o.push(("a", self.generic_args(args)));
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("n", s(p.name.to_string()))); }
            ty::Alias(_, a) => {
                o.push(("k", s("alias")));
                let args = a.args;
                o.push(("a", self.generic_args(args)));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => o.push(("k", s("prim"))),
            _ => o.push(("k", s("other"))),
        }
        let _ = tcx;
        self.tys[i] = J::O(o);
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, elem) in p.iter_projections() {
            let e = match elem {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && bt.variant_index.is_none() { format!("{}", f.as_usize()) }
                            else { def.variant(vi).fields[f].name.to_string() }
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![s("f"), n(f.as_usize()), s(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("c"), n(offset as usize), n(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("s"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(name, vi) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let nm = match (name, bt.ty.kind()) {
                        (_, ty::Adt(def, _)) => def.variant(vi).name.to_string(),
                        (Some(x), _) => x.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    J::A(vec![s("d"), n(vi.as_usize()), s(nm)])
                }
                _ => J::A(vec![s("?"), s(format!("{:?}", elem))]),
            };
            pr.push(e);
        }
        J::O(vec![("l", n(p.local.as_usize())), ("p", J::A(pr))])
    }

    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", n(self.ty(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            o.push(("fn", self.callee(owner, *d, args)));
            return J::O(o);
        }
        let te = TypingEnv::post_analysis(tcx, owner);
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted { o.push(("promoted", n(p.as_usize()))); return J::O(o); }
                o.push(("item", s(self.path(u.def))));
            }
            _ => {}
        }
        let has_param = { use rustc_middle::ty::TypeVisitableExt; c.const_.has_param() };
        if !has_param {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, te) {
                let sz = sc.size();
                let bits = sc.to_bits(sz);
                match t.kind() {
                    ty::Int(_) => o.push(("int", J::N(sc.to_int(sz)))),
                    ty::Uint(_) | ty::Bool | ty::Char => o.push(("int", J::S(format!("{}", bits)))),
                    ty::Float(ty::FloatTy::F64) => o.push(("float", s(format!("{:?}", f64::from_bits(bits as u64))))),
                    ty::Float(ty::FloatTy::F32) => o.push(("float", s(format!("{:?}", f32::from_bits(bits as u32))))),
                    _ => o.push(("bits", J::S(format!("{}", bits)))),
                }
            } else if !matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
            } else if let Ok(v) = c.const_.eval(tcx, te, c.span) {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", s(String::from_utf8_lossy(bytes).to_string())));
                }
            }
        }
        o.push(("s", s(format!("{}", c.const_))));
        J::O(o)
    }

    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, owner);
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d))), ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()))];
        o.push(("a", self.generic_args(args)));
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(tr)))); }
        else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", s(format!("{}", st))));
        }
        let mut rd = d;
        let erased = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, erased) {
            match inst.def {
                ty::InstanceKind::Item(x) => {
                    rd = x;
                    if x != d {
                        o.push(("rpath", s(self.path(x))));
                        o.push(("ra", self.generic_args(inst.args)));
                    }
                    o.push(("resolved", J::B(true)));
                }
                other => { o.push(("shim", s(format!("{:?}", other).chars().take(60).collect::<String>()))); }
            }
        }
        if tcx.trait_of_assoc(d).is_some() && rd == d && tcx.defaultness(d).has_value() == false {
            o.push(("abstract", J::B(true)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            if tp.ends_with("iter::Iterator") || tp.ends_with("Itertools") || tp.ends_with("iter::IntoIterator") || tp.ends_with("iter::Extend") {
                let lang = if tp.ends_with("IntoIterator") { tr } else { tcx.get_diagnostic_item(rustc_span::sym::Iterator).unwrap() };
                let src = if tp.ends_with("Extend") { args.types().last() } else { args.types().next() };
                if tp.ends_with("Extend") || lang == tr || tp.ends_with("Itertools") {
                    let lang = if tp.ends_with("Extend") { tcx.get_diagnostic_item(rustc_span::sym::IntoIterator).unwrap() } else { lang };
                    if let Some(st) = src {
                        if let Some(item) = tcx.associated_items(lang).in_definition_order().find(|i| i.opt_name().map(|x| x.as_str() == "Item").unwrap_or(false)) {
                            let pt = Ty::new_projection(tcx, ty::IsRigid::No, item.def_id, [ty::GenericArg::from(tcx.erase_and_anonymize_regions(st))]);
                            if let Ok(nt) = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new(pt)) {
                                o.push(("item", n(self.ty(nt))));
                            }
                        }
                    }
                }
            }
        }
        let sig = tcx.fn_sig(d).skip_binder();
        o.push(("unsafe", J::B(!sig.safety().is_safe())));
        o.push(("crate", s(tcx.crate_name(rd.krate).to_string())));
        o.push(("local", J::B(rd.is_local())));
        J::O(o)
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("cp", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(body, p))]),
            Operand::Constant(c) => J::O(vec![("c", self.constant(owner, c))]),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("c", J::O(vec![("s", s(format!("{:?}", op)))]))]),
        }
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(owner, body, o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(owner, body, o), s(format!("{}", c))]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), s(if matches!(bk, BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(body, p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(owner, body, o), n(t)]) }
            Rvalue::BinaryOp(b, ab) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(owner, body, &ab.0), self.operand(owner, body, &ab.1)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(owner, body, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(body, p), n(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(owner, body, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let var = def.variant(*vi);
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::A(vec![s("adt"), s(self.path(*d)), s(var.name.to_string()), n(vi.as_usize()), J::A(names), J::B(def.is_enum())])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    other => J::A(vec![s("other"), s(format!("{:?}", other))]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(body, p))])]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(n(self.ty(l.ty))); }
        let mut dbg = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(body, p), v.argument_index.map(|x| n(x as usize)).unwrap_or(J::Null)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(ab) => {
                        let (p, r) = &**ab;
                        st.push(J::A(vec![s("="), self.place(body, p), self.rvalue(owner, body, r), self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(body, place), n(variant_index.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let exp = t.source_info.span.desugaring_kind().map(|k| format!("{:?}", k)).unwrap_or_default();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::N(v as i128), n(b.as_usize())])).collect();
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    J::A(vec![s("switch"), self.operand(owner, body, discr), J::A(ts), n(targets.otherwise().as_usize()), n(dt)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(body, place), n(target.as_usize())]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.constant() {
                        Some(c) => self.constant(owner, c),
                        None => J::O(vec![("dyn", self.operand(owner, body, func))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(owner, body, &x.node)).collect();
                    J::A(vec![s("call"), f, J::A(a), self.place(body, destination), target.map(|x| n(x.as_usize())).unwrap_or(J::Null)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), self.operand(owner, body, cond), J::B(*expected), s(m), n(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("ds", s(exp)), ("cl", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("n", n(body.arg_count)), ("locals", J::A(locals)), ("dbg", J::A(dbg)), ("b", J::A(blocks))])
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, tys: vec![], tymap: HashMap::new(), adts: vec![], adtmap: HashMap::new(), trans: HashMap::new() };
    let _ = &cx.trans;
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
        let b = tcx.optimized_mir(d);
        let main = cx.body(d, b);
        let mut prom = vec![];
        for p in tcx.promoted_mir(d).iter() { prom.push(cx.body(d, p)); }
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", s(cx.path(d))),
            ("kind", s(format!("{:?}", kind))),
            ("span", cx.span(tcx.def_span(d))),
        ];
        if kind != DefKind::Closure {
            o.push(("name", s(tcx.item_name(d).to_string())));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            o.push(("exported", J::B(ev.is_reachable(*ld))));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", n(cx.ty(st))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("trait_args", cx.generic_args(tr.args)));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait_default", s(cx.path(tr))));
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        } else {
            o.push(("parent", s(cx.path(tcx.parent(d)))));
        }
        o.push(("body", main));
        o.push(("promoted", J::A(prom)));
        fns.push(J::O(o));
    }
    // all local ADTs and statics
    let mut statics = vec![];
    let mut impls = vec![];
    let mut unsafes = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => { let def = tcx.adt_def(d); cx.adt(def); let t = tcx.type_of(d).instantiate_identity().skip_norm_wip(); cx.ty(t); }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                statics.push(J::O(vec![("path", s(cx.path(d))), ("mut", J::B(tcx.is_mutable_static(d))), ("freeze", J::B(freeze)), ("ty", n(cx.ty(t)))]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", n(cx.ty(st)))];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("trait_args", cx.generic_args(tr.args)));
                    o.push(("unsafe", J::B(!h.safety.is_safe())));
                }
                o.push(("span", cx.span(tcx.def_span(d))));
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    // unsafe blocks, by a THIR independent HIR walk
    struct V<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<(Span, String)> }
    impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                // unsafe code that a foreign macro expands to is not the crate's own
                if !b.span.from_expansion() || b.span.ctxt().outer_expn_data().macro_def_id.map(|m| m.is_local()).unwrap_or(true) {
                    let owner = b.hir_id.owner.to_def_id();
                    self.found.push((b.span, self.tcx.def_path_str(owner)));
                }
            }
            rustc_hir::intravisit::walk_block(self, b);
        }
    }
    let mut v = V { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    for (sp, o) in v.found { unsafes.push(J::A(vec![cx.span(sp), s(o)])); }
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)), ("types", J::A(cx.tys.clone())), ("adts", J::A(cx.adts.clone())),
        ("statics", J::A(statics)), ("impls", J::A(impls)), ("unsafe_blocks", J::A(unsafes)),
    ]);
    let mut o = String::new();
    root.w(&mut o);
    std::fs::write(out, o).unwrap();
}

struct Cb { out: Option<String> }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Some(o) = &self.out { rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, o)); }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("VMIR_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) { if w[0] == "--crate-name" && w[1] == want { is = true; } }
    if args.iter().any(|a| a == "--test") { is = false; }
    let out = if is { std::env::var("VMIR_OUT").ok() } else { None };
    if out.is_some() { args.push("-Zmir-opt-level=0".into()); args.push("-Cdebug-assertions=off".into()); args.push("-Coverflow-checks=on".into()); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
