//! `pgfacts`: a `RUSTC_WORKSPACE_WRAPPER` that compiles the `portgraph` crate with the real
//! compiler front end and dumps the *resolved, type-checked* program as JSON facts:
//!
//! * every function body as MIR, with resolved callees (trait methods are resolved per
//!   instantiation, closures are resolved to their bodies), field names and source locations;
//! * the types of the crate (fields, types, visibility) and its trait implementations.
//!
//! No code of the crate is executed. The rules live in `/verif/pg/*.py`.
#![feature(rustc_private)]
extern crate rustc_abi;

extern crate rustc_driver;

extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(false);
        config.opts.debug_assertions = false;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let s = Dump::new(tcx).run();
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
}

/// Crates' modules whose (generic, inlinable) bodies are dumped along with the crate's own.
fn follow_std(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::",
        "core::result::",
        "core::ops::",
        "core::convert::",
        "core::bool::",
        "std::option::",
        "std::result::",
        "std::ops::",
        "std::convert::",
        "std::bool::",
    ];
    P.iter().any(|p| path.starts_with(p)) || path.contains("std::convert::Into<") || path.contains("std::convert::TryInto<") || path.starts_with("<core::option") || path.starts_with("<std::option") || path.starts_with("<std::result")
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump { tcx, ids: HashMap::new(), queue: VecDeque::new() }
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn tys(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{t}"))
    }

    fn id(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let n = self.ids.len();
        if let Some(i) = self.ids.get(&(inst, env)) {
            return *i;
        }
        self.ids.insert((inst, env), n);
        self.queue.push_back((n, inst, env));
        n
    }

    /// The instance's body, when it is one of those we follow.
    fn want(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        match inst.def {
            InstanceKind::Item(d) => {
                let ok = d.is_local() || follow_std(&self.path(d)) ;
                if !ok || !self.tcx.is_mir_available(d) {
                    return None;
                }
                if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
                    return None;
                }
                Some(self.id(inst, env))
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => Some(self.id(inst, env)),
            _ => None,
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("def", J::S(self.path(d))),
            ("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("args", J::A(args.iter().map(|a| J::S(ty::print::with_no_trimmed_paths!(format!("{a}")))).collect())),
            ("crate", J::B(d.is_local())),
        ];
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let p = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(p) {
                DefKind::Variant => (tcx.parent(p), tcx.item_name(p).to_string()),
                _ => (p, String::new()),
            };
            o.push(("adt", J::S(self.path(adt))));
            o.push(("variant", J::S(var)));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(t))));
            o.push(("self", J::S(self.tys(args.type_at(0)))));
        }
        if let Some(t) = tcx.impl_of_assoc(d) {
            o.push(("self", J::S(self.tys(tcx.type_of(t).instantiate(tcx, args.truncate_to(tcx, tcx.generics_of(t))).skip_norm_wip()))));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = i.def_id();
            o.push(("rdef", J::S(self.path(rd))));
            o.push(("rcrate", J::B(rd.is_local())));
            if let Some(im) = tcx.impl_of_assoc(rd) {
                let n = tcx.generics_of(im).count();
                if i.args.len() >= n {
                    let st = tcx.type_of(im).instantiate(tcx, i.args.truncate_to(tcx, tcx.generics_of(im))).skip_norm_wip();
                    o.push(("rself", J::S(self.tys(st))));
                }
            }
            if tcx.is_closure_like(rd) {
                o.push(("closure", J::B(true)));
            }
            if let Some(k) = self.want(i, env) {
                o.push(("inst", J::N(k as i128)));
            }
        }
        J::O(o)
    }

    fn place(&self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, p: mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => proj.push(J::A(vec![J::s("d")])),
                mir::ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    if let ty::Adt(adt, _) = pt.ty.kind() {
                        let v = match pt.variant_index {
                            Some(v) => adt.variant(v),
                            None if adt.is_enum() => adt.variant(rustc_abi::VariantIdx::from_u32(0)),
                            None => adt.non_enum_variant(),
                        };
                        name = v.fields[f].name.to_string();
                        owner = self.path(adt.did());
                    } else if let ty::Closure(d, _) = pt.ty.kind() {
                        let _ = d;
                        owner = "closure".into();
                    }
                    proj.push(J::A(vec![J::s("f"), J::S(name), J::S(owner)]));
                }
                mir::ProjectionElem::Index(l) => proj.push(J::A(vec![J::s("i"), J::N(l.as_usize() as i128)])),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    proj.push(J::A(vec![J::s("c"), J::N(offset as i128), J::B(from_end)]))
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(J::A(vec![J::s("sub"), J::N(from as i128), J::N(to as i128), J::B(from_end)]))
                }
                mir::ProjectionElem::Downcast(s, v) => {
                    proj.push(J::A(vec![J::s("v"), J::S(s.map(|s| s.to_string()).unwrap_or_default()), J::N(v.as_usize() as i128)]))
                }
                _ => proj.push(J::A(vec![J::s("?")])),
            }
            pt = pt.projection_ty(tcx, e);
            let _ = env;
        }
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(proj)])
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return J::O(vec![("k", J::s("fn")), ("fn", self.callee(*d, args.skip_binder(), env))]);
        }
        let mut o = vec![("k", J::s("const")), ("ty", J::S(self.tys(t)))];
        let val = c.const_.eval(tcx, env, c.span);
        let mut done = false;
        if let Ok(v) = val {
            if let Some(s) = v.try_to_scalar_int() {
                if t.is_integral() || t.is_bool() || t.is_char() {
                    let n = if t.is_signed() { s.to_int(s.size()) } else { s.to_uint(s.size()) as i128 };
                    o.push(("v", J::N(n)));
                    done = true;
                }
            }
        }
        if !done {
            let s = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
            o.push(("s", J::S(s)));
            if let mir::Const::Unevaluated(u, _) = c.const_ {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::N(p.as_usize() as i128)));
                }
                o.push(("cdef", J::S(self.path(u.def))));
                if let Some(tr) = tcx.trait_of_assoc(u.def) {
                    o.push(("trait", J::S(self.path(tr))));
                }
            }
        }
        J::O(o)
    }

    fn op(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("p", self.place(body, env, *p))]),
            mir::Operand::Move(p) => J::O(vec![("k", J::s("move")), ("p", self.place(body, env, *p))]),
            mir::Operand::Constant(c) => self.konst(c, env),
            _ => J::O(vec![("k", J::s("rt"))]),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        let tcx = self.tcx;
        match r {
            Use(o, ..) => J::O(vec![("k", J::s("use")), ("o", self.op(body, env, o))]),
            Repeat(o, n) => J::O(vec![("k", J::s("repeat")), ("o", self.op(body, env, o)), ("n", J::S(format!("{n}")))]),
            Ref(_, bk, p) => J::O(vec![
                ("k", J::s("ref")),
                ("mut", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("p", self.place(body, env, *p)),
            ]),
            RawPtr(k, p) => J::O(vec![("k", J::s("rawptr")), ("m", J::S(format!("{k:?}"))), ("p", self.place(body, env, *p))]),
            Cast(k, o, t) => {
                let from = self.tys(o.ty(body, tcx));
                J::O(vec![
                ("k", J::s("cast")),
                ("ck", J::S(format!("{k:?}"))),
                ("o", self.op(body, env, o)),
                ("from", J::S(from)),
                ("ty", J::S(self.tys(*t))),
            ])},
            BinaryOp(b, ops) => J::O(vec![
                ("k", J::s("bin")),
                ("b", J::S(format!("{b:?}"))),
                ("l", self.op(body, env, &ops.0)),
                ("r", self.op(body, env, &ops.1)),
            ]),
            UnaryOp(u, o) => J::O(vec![("k", J::s("un")), ("u", J::S(format!("{u:?}"))), ("o", self.op(body, env, o))]),
            Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let mut vars = vec![];
                let mut adtn = String::new();
                if let ty::Adt(adt, _) = t.kind() {
                    adtn = self.path(adt.did());
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            vars.push(J::A(vec![J::N(d.val as i128), J::S(adt.variant(vi).name.to_string())]));
                        }
                    }
                }
                J::O(vec![("k", J::s("discr")), ("p", self.place(body, env, *p)), ("adt", J::S(adtn)), ("vars", J::A(vars))])
            }
            Aggregate(k, ops) => {
                let mut o = vec![("k", J::s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("a", J::s("array"))),
                    mir::AggregateKind::Tuple => o.push(("a", J::s("tuple"))),
                    mir::AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        o.push(("a", J::s("adt")));
                        o.push(("adt", J::S(self.path(*d))));
                        o.push(("variant", J::S(if adt.is_enum() { var.name.to_string() } else { String::new() })));
                        o.push(("fields", J::A(var.fields.iter().map(|f| J::S(f.name.to_string())).collect())));
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        o.push(("a", J::s("closure")));
                        o.push(("def", J::S(self.path(*d))));
                        let inst = Instance::new_raw(*d, args);
                        let inst = tcx.erase_and_anonymize_regions(inst);
                        let k = self.id(inst, env);
                        o.push(("inst", J::N(k as i128)));
                        let sp = tcx.def_span(*d);
                        o.push(("span", self.span(sp)));
                    }
                    _ => o.push(("a", J::s("other"))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.op(body, env, x)).collect())));
                J::O(o)
            }
            CopyForDeref(p) => J::O(vec![("k", J::s("use")), ("o", J::O(vec![("k", J::s("copy")), ("p", self.place(body, env, *p))]))]),
            _ => J::O(vec![("k", J::s("other")), ("s", J::S(format!("{r:?}")))]),
        }
    }

    fn body(&mut self, n: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let mut promoted = vec![];
        if let InstanceKind::Item(d) = inst.def {
            for b in tcx.promoted_mir(d).iter() {
                promoted.push(b.clone());
            }
        }
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()));
        let mut o = self.one(&body, env);
        let d = inst.def_id();
        o.push(("id", J::N(n as i128)));
        o.push(("def", J::S(self.path(d))));
        o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
        o.push(("args", J::A(inst.args.iter().map(|a| J::S(ty::print::with_no_trimmed_paths!(format!("{a}")))).collect())));
        o.push(("crate", J::B(d.is_local())));
        o.push(("kind", J::S(format!("{:?}", tcx.def_kind(d)))));
        o.push(("shim", J::B(!matches!(inst.def, InstanceKind::Item(_)))));
        o.push(("root", J::B(false)));
        o.push(("parent", J::S(tcx.opt_parent(d).map(|p| self.path(p)).unwrap_or_default())));
        o.push(("span", self.span(tcx.def_span(d))));
        if let Some(im) = tcx.impl_of_assoc(d) {
            o.push(("self", J::S(self.tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("trait", J::S(self.path(tr.skip_binder().def_id))));
                o.push(("trait_ref", J::S(ty::print::with_no_trimmed_paths!(format!("{}", tr.instantiate_identity().skip_norm_wip())))));
            }
        } else if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("in_trait", J::S(self.path(t))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", J::B(tcx.visibility(d).is_public())));
            if let Some(l) = d.as_local() {
                o.push(("exported", J::B(tcx.effective_visibilities(()).is_exported(l))));
                o.push(("derived", J::B(tcx.impl_of_assoc(d).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false))));
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("sig", J::S(ty::print::with_no_trimmed_paths!(format!("{}", sig.skip_binder())))));
        }
        let mut ps = vec![];
        for b in promoted {
            let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b));
            ps.push(J::O(self.one(&b, env)));
        }
        o.push(("promoted", J::A(ps)));
        J::O(o)
    }

    fn one(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("argc", J::N(body.arg_count as i128)));
        o.push(("spread", body.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null)));
        o.push(("locals", J::A(body.local_decls.iter().map(|l| J::S(self.tys(l.ty))).collect())));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![J::S(v.name.to_string()), self.place(body, env, p)]));
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pl = self.place(body, env, *p);
                        let rv = self.rvalue(body, env, r);
                        let sp = self.span(s.source_info.span);
                        st.push(J::A(vec![pl, rv, sp]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(body, env, **place);
                        let t = place.ty(body, self.tcx).ty;
                        let mut nm = String::new();
                        if let ty::Adt(adt, _) = t.kind() {
                            nm = adt.variant(*variant_index).name.to_string();
                        }
                        let sp = self.span(s.source_info.span);
                        st.push(J::A(vec![pl, J::O(vec![("k", J::s("setdiscr")), ("variant", J::S(nm))]), sp]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = |b: mir::BasicBlock| J::N(b.as_usize() as i128);
            let mut tj: Vec<(&'static str, J)> = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => vec![("k", J::s("goto")), ("to", t(*target))],
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(body, self.tcx);
                    vec![
                        ("k", J::s("switch")),
                        ("o", self.op(body, env, discr)),
                        ("ty", J::S(self.tys(dty))),
                        ("cases", J::A(targets.iter().map(|(v, b)| J::A(vec![J::N(v as i128), t(b)])).collect())),
                        ("else", t(targets.otherwise())),
                    ]
                }
                mir::TerminatorKind::Return => vec![("k", J::s("return"))],
                mir::TerminatorKind::Unreachable => vec![("k", J::s("unreachable"))],
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => vec![("k", J::s("unwind"))],
                mir::TerminatorKind::Drop { target, place, .. } => {
                    vec![("k", J::s("drop")), ("to", t(*target)), ("p", self.place(body, env, *place))]
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(body, env, func);
                    let mut aty = vec![];
                    for a in args.iter() {
                        aty.push(J::S(self.tys(a.node.ty(body, self.tcx))));
                    }
                    let a = args.iter().map(|a| self.op(body, env, &a.node)).collect();
                    let dty = destination.ty(body, self.tcx).ty;
                    vec![
                        ("k", J::s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("aty", J::A(aty)),
                        ("rty", J::S(self.tys(dty))),
                        ("dest", self.place(body, env, *destination)),
                        ("to", target.map(t).unwrap_or(J::Null)),
                    ]
                }
                mir::TerminatorKind::Assert { cond, expected, target, msg, .. } => vec![
                    ("k", J::s("assert")),
                    ("o", self.op(body, env, cond)),
                    ("exp", J::B(*expected)),
                    ("msg", J::S(format!("{msg:?}").chars().take(60).collect())),
                    ("to", t(*target)),
                ],
                mir::TerminatorKind::FalseEdge { real_target, .. } => vec![("k", J::s("goto")), ("to", t(*real_target))],
                mir::TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", J::s("goto")), ("to", t(*real_target))],
                k => vec![("k", J::s("other")), ("s", J::S(format!("{k:?}")))],
            };
            tj.push(("sp", sp));
            blocks.push(J::O(vec![("st", J::A(st)), ("t", J::O(tj)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(blocks)));
        o
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut consts = vec![];
        for l in tcx.mir_keys(()) {
            let d = l.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let body = tcx.mir_for_ctfe(d).clone();
                let env = TypingEnv::post_analysis(tcx, d);
                let mut o = self.one(&body, env);
                o.push(("def", J::S(self.path(d))));
                o.push(("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())));
                o.push(("span", self.span(tcx.def_span(d))));
                let mut ps = vec![];
                for b in tcx.promoted_mir(d).iter() {
                    ps.push(J::O(self.one(b, env)));
                }
                o.push(("promoted", J::A(ps)));
                consts.push(J::O(o));
                continue;
            }
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let env = TypingEnv::post_analysis(tcx, d);
            let id = self.id(inst, env);
            roots.push(J::N(id as i128));
        }
        let mut bodies = vec![];
        while let Some((n, i, e)) = self.queue.pop_front() {
            if n > 60000 {
                break;
            }
            bodies.push(self.body(n, i, e));
        }
        // Types.
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in adt.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fs.push(J::O(vec![
                                ("name", J::S(f.name.to_string())),
                                ("ty", J::S(self.tys(t))),
                                ("pub", J::B(f.vis.is_public())),
                                ("vis", J::S(format!("{:?}", f.vis))),
                            ]));
                        }
                        vs.push(J::O(vec![("name", J::S(v.name.to_string())), ("fields", J::A(fs))]));
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, d);
                    adts.push(J::O(vec![
                        ("def", J::S(self.path(d))),
                        ("span", self.span(tcx.def_span(d))),
                        ("enum", J::B(adt.is_enum())),
                        ("variants", J::A(vs)),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("exported", J::B(tcx.effective_visibilities(()).is_exported(id))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("self", J::S(self.tys(t))),
                        ("span", self.span(tcx.def_span(d))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                    ];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::S(self.path(tr.def_id))));
                        o.push(("trait_ref", J::S(ty::print::with_no_trimmed_paths!(format!("{tr}")))));
                        o.push(("polarity", J::S(format!("{:?}", tcx.impl_polarity(d)))));
                    }
                    let mut ms = vec![];
                    for &it in tcx.associated_item_def_ids(d) {
                        let a = tcx.associated_item(it);
                        ms.push(J::O(vec![
                            ("name", J::S(a.opt_name().map(|s| s.to_string()).unwrap_or_default())),
                            ("def", J::S(self.path(it))),
                            ("fn", J::B(a.is_fn())),
                            ("span", self.span(tcx.def_span(it))),
                        ]));
                    }
                    o.push(("items", J::A(ms)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => {
                    let mut ms = vec![];
                    for &it in tcx.associated_item_def_ids(d) {
                        let a = tcx.associated_item(it);
                        ms.push(J::O(vec![
                            ("name", J::S(a.opt_name().map(|s| s.to_string()).unwrap_or_default())),
                            ("def", J::S(self.path(it))),
                            ("fn", J::B(a.is_fn())),
                            ("default", J::B(a.defaultness(tcx).has_value())),
                            ("sig", J::S(if a.is_fn() { ty::print::with_no_trimmed_paths!(format!("{}", tcx.fn_sig(it).instantiate_identity().skip_norm_wip().skip_binder())) } else { String::new() })),
                        ]));
                    }
                    traits.push(J::O(vec![("def", J::S(self.path(d))), ("items", J::A(ms)), ("span", self.span(tcx.def_span(d)))]));
                }
                _ => {}
            }
        }
        let root = J::O(vec![
            ("roots", J::A(roots)),
            ("bodies", J::A(bodies)),
            ("consts", J::A(consts)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
        ]);
        let mut s = String::new();
        root.write(&mut s);
        let _ = write!(s, "\n");
        s
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "portgraph")
        && !args.iter().any(|a| a == "--test");
    match (is_target, std::env::var("PGFACTS_OUT")) {
        (true, Ok(out)) => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
        _ => {
            struct N;
            impl rustc_driver::Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N)
        }
    }
}
