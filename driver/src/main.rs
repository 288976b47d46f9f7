//! Dumps the type-checked program (MIR with resolved callees, types, impls) of the crate `synedrion` as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc, the rest are its arguments.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    let h = tcx.def_path_hash(d);
    format!("{:?}", h.0)
        .replace("Fingerprint", "")
        .replace(['(', ')', ' '], "")
        .replace(',', "_")
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Dump<'tcx> {
    fn span(&self, s: Span) -> J {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return J::N(*i as i128);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, i);
        let s = ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&str, J)> = vec![("s", J::S(s))];
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let a = self.args(args);
                o.push(("args", a));
            }
            ty::Ref(_, u, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let a = self.ty(*u);
                o.push(("args", J::A(vec![a])));
            }
            ty::RawPtr(u, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let a = self.ty(*u);
                o.push(("args", J::A(vec![a])));
            }
            ty::Tuple(l) => {
                o.push(("k", J::s("tuple")));
                let a = l.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Slice(u) => {
                o.push(("k", J::s("slice")));
                let a = self.ty(*u);
                o.push(("args", J::A(vec![a])));
            }
            ty::Array(u, n) => {
                o.push(("k", J::s("array")));
                let a = self.ty(*u);
                o.push(("args", J::A(vec![a])));
                o.push(("len", J::S(format!("{n}"))));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::S(p.name.to_string())));
                o.push(("idx", J::N(p.index as i128)));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::S(path(tcx, *d))));
                o.push(("key", J::S(key(tcx, *d))));
                let up = args.as_closure().tupled_upvars_ty();
                let u = self.ty(up);
                o.push(("upvars", u));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("path", J::S(path(tcx, *d))));
                o.push(("key", J::S(key(tcx, *d))));
                let a = self.args(args.skip_binder());
                o.push(("args", a));
            }
            ty::Alias(_, at) => {
                o.push(("k", J::s("alias")));
                let _ = at;
                let s = ty::print::with_no_trimmed_paths!(format!("{t}"));
                o.push(("path", J::S(s)));
                let a = self.args(at.args);
                o.push(("args", a));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Never => o.push(("k", J::s("never"))),
            _ => o.push(("k", J::s("prim"))),
        }
        self.types[i] = J::O(o.into_iter().map(|(a, b)| (a.to_string(), b)).collect());
        J::N(i as i128)
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                v.push(J::S(format!("{c}")));
            }
        }
        J::A(v)
    }

    fn generics(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let mut chain = vec![];
        let mut cur = Some(d);
        while let Some(c) = cur {
            let g = self.tcx.generics_of(c);
            chain.push(g);
            cur = g.parent;
        }
        for g in chain.into_iter().rev() {
            for p in &g.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    _ => v.push(J::S(p.name.to_string())),
                }
            }
        }
        J::A(v)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let base = pty.ty;
                    if let ty::Adt(def, _) = base.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if def.is_struct() || def.is_enum() {
                            name = def.variant(vi).fields[f].name.to_string();
                        }
                    }
                    J::O(vec![("f".into(), J::S(name)), ("i".into(), J::N(f.as_usize() as i128))])
                }
                ProjectionElem::Index(l) => J::O(vec![("ix".into(), J::N(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![
                    ("cix".into(), J::N(offset as i128)),
                    ("end".into(), J::B(from_end)),
                ]),
                ProjectionElem::Downcast(name, v) => J::O(vec![
                    ("dc".into(), J::N(v.as_usize() as i128)),
                    ("n".into(), J::S(name.map(|s| s.to_string()).unwrap_or_default())),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub".into(), J::A(vec![J::N(from as i128), J::N(to as i128), J::B(from_end)])),
                ]),
                _ => J::s("?"),
            };
            pr.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(pr)])
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        o.push(("path".into(), J::S(path(tcx, d))));
        o.push(("key".into(), J::S(key(tcx, d))));
        o.push(("local".into(), J::B(d.is_local())));
        let a = self.args(args);
        o.push(("args".into(), a));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), J::S(path(tcx, t))));
            let st = args.types().next();
            if let Some(st) = st {
                let j = self.ty(st);
                o.push(("self".into(), j));
            }
            let full = ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
            o.push(("full".into(), J::S(full)));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let j = self.ty(st);
            o.push(("self".into(), j));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
            let rd = inst.def_id();
            if rd != d {
                o.push(("rpath".into(), J::S(path(tcx, rd))));
                o.push(("rkey".into(), J::S(key(tcx, rd))));
                o.push(("rlocal".into(), J::B(rd.is_local())));
                let a = self.args(inst.args);
                o.push(("rargs".into(), a));
            } else {
                o.push(("same".into(), J::B(true)));
            }
        }
        J::O(o)
    }

    fn scalar_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                if off + len <= a.len() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o: Vec<(String, J)> = vec![];
        let tj = self.ty(t);
        o.push(("t".into(), tj));
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(*d, args.skip_binder(), env);
            o.push(("fn".into(), cal));
            return J::O(o);
        }
        match c {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted".into(), J::N(p.as_usize() as i128)));
                    o.push(("of".into(), J::S(key(tcx, u.def))));
                    return J::O(o);
                }
                let cal = match tcx.def_kind(u.def) {
                    DefKind::AssocConst { .. } | DefKind::Const { .. } => self.callee_const(u.def, u.args, env),
                    _ => J::O(vec![("path".into(), J::S(path(tcx, u.def)))]),
                };
                o.push(("const".into(), cal));
            }
            Const::Ty(_, ct) => {
                o.push(("tyconst".into(), J::S(format!("{ct}"))));
            }
            _ => {}
        }
        let has_params = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_param()
        };
        let val = match c {
            Const::Val(v, _) => Some(*v),
            _ if !has_params => c.eval(tcx, env, span).ok(),
            _ => None,
        };
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size());
                    if t.is_signed() {
                        o.push(("v".into(), J::N(i.to_int(i.size()))));
                    } else if t.is_bool() {
                        o.push(("v".into(), J::B(bits != 0)));
                    } else if bits > i128::MAX as u128 {
                        o.push(("v".into(), J::S(format!("{bits}"))));
                    } else {
                        o.push(("v".into(), J::N(bits as i128)));
                    }
                }
                ConstValue::ZeroSized => o.push(("zst".into(), J::B(true))),
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.scalar_bytes(alloc_id, 0, meta as usize) {
                        o.push(("bytes".into(), J::S(bytes_str(&b))));
                    }
                }
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                    // e.g. b"literal": &[u8; N]
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(e, n) = inner.kind() {
                            if e.is_integral() && *e == tcx.types.u8 {
                                if let Some(n) = n.try_to_target_usize(tcx) {
                                    let (prov, off) = p.into_raw_parts();
                                    if let Some(b) = self.scalar_bytes(prov.alloc_id(), off.bytes() as usize, n as usize)
                                    {
                                        o.push(("bytes".into(), J::S(bytes_str(&b))));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let mut s = String::new();
        let _ = ty::print::with_no_trimmed_paths!(write!(s, "{c}"));
        o.push(("s".into(), J::S(s)));
        J::O(o)
    }

    fn callee_const(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        o.push(("path".into(), J::S(path(tcx, d))));
        o.push(("key".into(), J::S(key(tcx, d))));
        let a = self.args(args);
        o.push(("args".into(), a));
        o.push((
            "full".into(),
            J::S(ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args))),
        ));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait".into(), J::S(path(tcx, t))));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
            if inst.def_id() != d {
                o.push(("rpath".into(), J::S(path(tcx, inst.def_id()))));
                o.push(("rkey".into(), J::S(key(tcx, inst.def_id()))));
            }
        }
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c".into(), self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("m".into(), self.place(body, p))]),
            Operand::Constant(c) => J::O(vec![("k".into(), self.constant(&c.const_, env, c.span))]),
            #[allow(unreachable_patterns)]
            other => J::O(vec![("x".into(), J::S(format!("{other:?}")))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![];
        macro_rules! k {
            ($s:expr) => {
                o.push(("k".into(), J::s($s)))
            };
        }
        match r {
            Rvalue::Use(op, ..) => {
                k!("use");
                o.push(("a".into(), self.operand(body, op, env)));
            }
            Rvalue::Repeat(op, n) => {
                k!("repeat");
                o.push(("a".into(), self.operand(body, op, env)));
                o.push(("n".into(), J::S(format!("{n}"))));
            }
            Rvalue::Ref(_, bk, p) => {
                k!("ref");
                o.push(("mut".into(), J::B(matches!(bk, BorrowKind::Mut { .. }))));
                o.push(("p".into(), self.place(body, p)));
            }
            Rvalue::Reborrow(_, m, p) => {
                k!("ref");
                o.push(("mut".into(), J::B(m.is_mut())));
                o.push(("p".into(), self.place(body, p)));
            }
            Rvalue::RawPtr(m, p) => {
                k!("rawptr");
                o.push(("m".into(), J::S(format!("{m:?}"))));
                o.push(("p".into(), self.place(body, p)));
            }
            Rvalue::Cast(ck, op, t) => {
                k!("cast");
                o.push(("ck".into(), J::S(format!("{ck:?}"))));
                o.push(("a".into(), self.operand(body, op, env)));
                let tj = self.ty(*t);
                o.push(("t".into(), tj));
            }
            Rvalue::BinaryOp(b, ab) => {
                k!("bin");
                o.push(("op".into(), J::S(format!("{b:?}"))));
                o.push(("a".into(), self.operand(body, &ab.0, env)));
                o.push(("b".into(), self.operand(body, &ab.1, env)));
            }
            Rvalue::UnaryOp(b, a) => {
                k!("un");
                o.push(("op".into(), J::S(format!("{b:?}"))));
                o.push(("a".into(), self.operand(body, a, env)));
            }
            Rvalue::Discriminant(p) => {
                k!("discr");
                o.push(("p".into(), self.place(body, p)));
                let t = p.ty(&body.local_decls, tcx).ty;
                let tj = self.ty(t);
                o.push(("t".into(), tj));
            }
            Rvalue::Aggregate(ak, ops) => {
                k!("agg");
                match &**ak {
                    AggregateKind::Array(t) => {
                        o.push(("ak".into(), J::s("array")));
                        let tj = self.ty(*t);
                        o.push(("t".into(), tj));
                    }
                    AggregateKind::Tuple => o.push(("ak".into(), J::s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        o.push(("ak".into(), J::s("adt")));
                        o.push(("path".into(), J::S(path(tcx, *d))));
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        o.push(("vi".into(), J::N(v.as_usize() as i128)));
                        o.push(("var".into(), J::S(var.name.to_string())));
                        o.push(("enum".into(), J::B(def.is_enum())));
                        o.push((
                            "fields".into(),
                            J::A(var.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
                        ));
                        let a = self.args(args);
                        o.push(("args".into(), a));
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("ak".into(), J::s("closure")));
                        o.push(("key".into(), J::S(key(tcx, *d))));
                        o.push(("path".into(), J::S(path(tcx, *d))));
                        let _ = args;
                    }
                    _ => o.push(("ak".into(), J::s("other"))),
                }
                let v = ops.iter().map(|x| self.operand(body, x, env)).collect();
                o.push(("ops".into(), J::A(v)));
            }
            Rvalue::CopyForDeref(p) => {
                k!("use");
                let pl = self.place(body, p);
                o.push(("a".into(), J::O(vec![("c".into(), pl)])));
            }
            other => {
                k!("other");
                o.push(("s".into(), J::S(format!("{other:?}"))));
            }
        }
        J::O(o)
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    let pj = self.place(body, p);
                    upnames.push(J::A(vec![J::S(v.name.to_string()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).cloned().unwrap_or_default();
            locals.push(J::A(vec![t, J::S(n)]));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, &a.0);
                        let r = self.rvalue(body, &a.1, env);
                        let sp = self.span(s.source_info.span);
                        st.push(J::A(vec![p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![
                            p,
                            J::O(vec![
                                ("k".into(), J::s("setdiscr")),
                                ("v".into(), J::N(variant_index.as_usize() as i128)),
                            ]),
                            J::Null,
                        ]));
                    }
                    _ => {}
                }
            }
            let mut o: Vec<(String, J)> = vec![];
            let term = b.terminator();
            let bb = |x: BasicBlock| J::N(x.as_usize() as i128);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::N(b.as_usize() as i128),
                _ => J::Null,
            };
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k".into(), J::s("goto")));
                    o.push(("t".into(), bb(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k".into(), J::s("switch")));
                    let d = self.operand(body, discr, env);
                    o.push(("d".into(), d));
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let tj = self.ty(dt);
                    o.push(("dt".into(), tj));
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(format!("{v}")), bb(b)]))
                        .collect();
                    o.push(("ts".into(), J::A(v)));
                    o.push(("else".into(), bb(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k".into(), J::s("return"))),
                TerminatorKind::Unreachable => o.push(("k".into(), J::s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k".into(), J::s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k".into(), J::s("abort"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k".into(), J::s("drop")));
                    let p = self.place(body, place);
                    o.push(("p".into(), p));
                    o.push(("t".into(), bb(*target)));
                    o.push(("u".into(), unw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k".into(), J::s("call")));
                    let f = self.operand(body, func, env);
                    o.push(("f".into(), f));
                    let a = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    o.push(("args".into(), J::A(a)));
                    let at = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            self.ty(t)
                        })
                        .collect();
                    o.push(("at".into(), J::A(at)));
                    let d = self.place(body, destination);
                    o.push(("d".into(), d));
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dtj = self.ty(dt);
                    o.push(("dt".into(), dtj));
                    o.push(("t".into(), target.map(bb).unwrap_or(J::Null)));
                    o.push(("u".into(), unw(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push(("k".into(), J::s("assert")));
                    let c = self.operand(body, cond, env);
                    o.push(("c".into(), c));
                    o.push(("e".into(), J::B(*expected)));
                    o.push(("msg".into(), J::S(format!("{msg:?}"))));
                    o.push(("t".into(), bb(*target)));
                    o.push(("u".into(), unw(unwind)));
                }
                other => {
                    o.push(("k".into(), J::s("other")));
                    o.push(("s".into(), J::S(format!("{other:?}"))));
                }
            }
            let sp = self.span(term.source_info.span);
            o.push(("sp".into(), sp));
            if term.source_info.span.from_expansion() {
                let ed = term.source_info.span.ctxt().outer_expn_data();
                o.push(("mac".into(), J::S(format!("{:?}", ed.kind))));
            }
            if b.is_cleanup {
                o.push(("cleanup".into(), J::B(true)));
            }
            blocks.push(J::A(vec![J::A(st), J::O(o)]));
        }
        J::O(vec![
            ("argc".into(), J::N(body.arg_count as i128)),
            ("locals".into(), J::A(locals)),
            ("upnames".into(), J::A(upnames)),
            ("blocks".into(), J::A(blocks)),
        ])
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if !is_fn && !is_const {
                continue;
            }
            let body = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let env = TypingEnv::post_analysis(tcx, d);
            let mut o: Vec<(String, J)> = vec![];
            o.push(("key".into(), J::S(key(tcx, d))));
            o.push(("path".into(), J::S(path(tcx, d))));
            o.push(("kind".into(), J::S(format!("{kind:?}"))));
            let sp = self.span(tcx.def_span(d));
            o.push(("sp".into(), sp));
            let root = tcx.typeck_root_def_id(d);
            if root != d {
                o.push(("root".into(), J::S(key(tcx, root))));
                let par = tcx.parent(d);
                o.push(("parent".into(), J::S(key(tcx, par))));
            }
            if !matches!(kind, DefKind::AnonConst) {
                let g = self.generics(root);
                o.push(("generics".into(), g));
            }
            if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
                o.push(("name".into(), J::S(tcx.item_name(d).to_string())));
                let par = tcx.parent(d);
                o.push(("cont".into(), J::S(key(tcx, par))));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let j = self.ty(st);
                    o.push(("self".into(), j));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait".into(), J::S(path(tcx, tr.def_id))));
                        o.push((
                            "trait_ref".into(),
                            J::S(ty::print::with_no_trimmed_paths!(format!("{tr}"))),
                        ));
                        o.push(("derived".into(), J::B(tcx.is_automatically_derived(im))));
                    }
                } else if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("in_trait".into(), J::S(path(tcx, t))));
                }
            } else if matches!(kind, DefKind::Fn | DefKind::Const { .. }) {
                o.push(("name".into(), J::S(tcx.item_name(d).to_string())));
            }
            if !matches!(kind, DefKind::AnonConst) {
                let mut v = vec![];
                for (cl, _) in tcx.clauses_of(root).instantiate_identity(tcx) {
                    v.push(J::S(ty::print::with_no_trimmed_paths!(format!("{}", cl.skip_norm_wip()))));
                }
                o.push(("preds".into(), J::A(v)));
            }
            if is_fn && kind != DefKind::Closure {
                o.push(("vis".into(), J::S(format!("{:?}", tcx.visibility(d)))));
                o.push((
                    "derived_fn".into(),
                    J::B(tcx.def_span(d).from_expansion()),
                ));
            }
            let b = self.body(body, env);
            o.push(("body".into(), b));
            let mut pv = vec![];
            let promoted = tcx.promoted_mir(d);
            for pb in promoted.iter() {
                pv.push(self.body(pb, env));
            }
            o.push(("promoted".into(), J::A(pv)));
            fns.push(J::O(o));
        }
        // ADTs and impls
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let items = tcx.hir_crate_items(());
        let want = [
            "core::marker::Copy",
            "core::clone::Clone",
            "core::fmt::Debug",
            "core::fmt::Display",
            "core::ops::Drop",
            "zeroize::Zeroize",
            "zeroize::ZeroizeOnDrop",
            "serde::Serialize",
            "serde::Deserialize",
            "core::cmp::PartialEq",
            "core::cmp::PartialOrd",
            "core::hash::Hash",
        ];
        let all_traits: Vec<(String, DefId)> = tcx
            .all_traits_including_private()
            .map(|d| (path(tcx, d), d))
            .collect();
        let mut tsel: Vec<(&str, DefId)> = vec![];
        for w in want {
            let last = w.rsplit("::").next().unwrap();
            for (p, d) in &all_traits {
                let krate = w.split("::").next().unwrap();
                let dk = tcx.crate_name(d.krate).to_string();
                let ok_crate = dk == krate || (krate == "serde" && dk == "serde_core");
                if ok_crate && p.rsplit("::").next().unwrap() == last && tcx.item_name(*d).as_str() == last {
                    tsel.push((w, *d));
                    break;
                }
            }
        }
        for id in items.definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tj = self.ty(t);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![
                                J::S(f.name.to_string()),
                                ft,
                                J::S(format!("{:?}", f.vis)),
                            ]));
                        }
                        vs.push(J::O(vec![
                            ("name".into(), J::S(v.name.to_string())),
                            ("fields".into(), J::A(fs)),
                        ]));
                    }
                    // trait facts, under the type's own where-clauses
                    let penv = tcx.param_env(d);
                    let mut tr = vec![];
                    let (infcx, penv2) = tcx
                        .infer_ctxt()
                        .build_with_typing_env(TypingEnv::post_analysis(tcx, d));
                    let _ = penv;
                    for (w, td) in &tsel {
                        let g = tcx.generics_of(*td);
                        let n_ty = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
                        let mut targs: Vec<ty::GenericArg<'tcx>> = vec![t.into()];
                        for p in g.own_params.iter().skip(1) {
                            match p.kind {
                                ty::GenericParamDefKind::Type { .. } => targs.push(t.into()),
                                ty::GenericParamDefKind::Lifetime => targs.push(tcx.lifetimes.re_static.into()),
                                _ => {}
                            }
                        }
                        let _ = n_ty;
                        // lifetimes may come before Self? Self is always first.
                        let res = infcx.type_implements_trait(*td, targs, penv2);
                        if res.must_apply_considering_regions() {
                            tr.push(J::s(w));
                        }
                    }
                    let needs_drop = t.needs_drop(tcx, TypingEnv::post_analysis(tcx, d));
                    adts.push(J::O(vec![
                        ("path".into(), J::S(path(tcx, d))),
                        ("key".into(), J::S(key(tcx, d))),
                        ("kind".into(), J::S(format!("{:?}", tcx.def_kind(d)))),
                        ("ty".into(), tj),
                        ("vis".into(), J::S(format!("{:?}", tcx.visibility(d)))),
                        ("variants".into(), J::A(vs)),
                        ("traits".into(), J::A(tr)),
                        ("needs_drop".into(), J::B(needs_drop)),
                        ("sp".into(), self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sj = self.ty(st);
                    let mut o: Vec<(String, J)> = vec![("key".into(), J::S(key(tcx, d))), ("self".into(), sj)];
                    let g = self.generics(d);
                    o.push(("generics".into(), g));
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait".into(), J::S(path(tcx, tr.def_id))));
                        let a = self.args(tr.args);
                        o.push(("targs".into(), a));
                        o.push(("derived".into(), J::B(tcx.is_automatically_derived(d))));
                    }
                    let mut its = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let tyj = match it.kind {
                            ty::AssocKind::Type { .. } => {
                                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                                self.ty(t)
                            }
                            _ => J::Null,
                        };
                        its.push(J::A(vec![J::S(it.opt_name().map(|x| x.to_string()).unwrap_or_default()), J::S(key(tcx, it.def_id)), tyj]));
                    }
                    o.push(("items".into(), J::A(its)));
                    o.push(("sp".into(), self.span(tcx.def_span(d))));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut its = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        its.push(J::A(vec![
                            J::S(it.opt_name().map(|x| x.to_string()).unwrap_or_default()),
                            J::S(key(tcx, it.def_id)),
                            J::B(it.defaultness(tcx).has_value()),
                        ]));
                    }
                    traits.push(J::O(vec![
                        ("path".into(), J::S(path(tcx, d))),
                        ("items".into(), J::A(its)),
                    ]));
                }
                _ => {}
            }
        }
        J::O(vec![
            ("crate".into(), J::S(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("fns".into(), J::A(fns)),
            ("adts".into(), J::A(adts)),
            ("impls".into(), J::A(impls)),
            ("traits".into(), J::A(traits)),
            ("types".into(), J::A(std::mem::take(&mut self.types))),
        ])
    }
}

fn bytes_str(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if !s.contains('\0') => s.to_string(),
        _ => {
            let mut s = String::from("0x");
            for x in b {
                let _ = write!(s, "{x:02x}");
            }
            s
        }
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new() };
        let j = d.run();
        let mut s = String::new();
        j.write(&mut s);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}
struct NoCb;
impl rustc_driver::Callbacks for NoCb {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "synedrion");
    let out = std::env::var("SYNFACTS_OUT").ok();
    match (is_target, out) {
        (true, Some(out)) => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir".into());
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut NoCb),
    }
}
