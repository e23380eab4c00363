//! mirdump: a rustc driver that type-checks a crate and writes its MIR as JSON.
//! It never executes the crate.  Used as RUSTC_WORKSPACE_WRAPPER; only the crate
//! named by MIRDUMP_CRATE (a lib, not built with --test) is dumped, to MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn jo(fields: &[(&str, String)]) -> String {
    let v: Vec<String> = fields.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    did: DefId,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{}", t)))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        jl(a.iter().map(|x| {
            js(&ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{}", x))))
        }))
    }
    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let f = |s: Span| {
            let lo = sm.lookup_char_pos(s.lo());
            format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
        };
        f(s)
    }
    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut projs = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => jo(&[("k", js("deref"))]),
                ProjectionElem::Field(f, fty) => {
                    let (adt, name) = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            let vd = a.variant(v);
                            (self.path(a.did()), vd.fields[f].name.to_string())
                        }
                        _ => (String::new(), format!("{}", f.index())),
                    };
                    jo(&[
                        ("k", js("field")),
                        ("i", f.index().to_string()),
                        ("name", js(&name)),
                        ("adt", js(&adt)),
                        ("ty", js(&self.ty(fty))),
                    ])
                }
                ProjectionElem::Index(l) => jo(&[("k", js("index")), ("l", l.index().to_string())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => jo(&[
                    ("k", js("cindex")),
                    ("off", offset.to_string()),
                    ("min", min_length.to_string()),
                    ("end", from_end.to_string()),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => jo(&[
                    ("k", js("subslice")),
                    ("from", from.to_string()),
                    ("to", to.to_string()),
                    ("end", from_end.to_string()),
                ]),
                ProjectionElem::Downcast(n, v) => jo(&[
                    ("k", js("downcast")),
                    ("v", v.index().to_string()),
                    ("name", js(&n.map(|s| s.to_string()).unwrap_or_default())),
                ]),
                other => jo(&[("k", js("other")), ("s", js(&format!("{:?}", other)))]),
            };
            projs.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        jo(&[("l", p.local.index().to_string()), ("p", jl(projs))])
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut f = vec![
            ("path", js(&self.path(d))),
            ("krate", js(self.tcx.crate_name(d.krate).as_str())),
            ("name", js(self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
            ("args", self.args(args)),
        ];
        let tcx = self.tcx;
        if let Some(t) = tcx.trait_of_assoc(d) {
            f.push(("trait", js(&self.path(t))));
            f.push(("self", js(&self.ty(args.type_at(0)))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            f.push(("unsafe", format!("{}", !tcx.fn_sig(d).skip_binder().safety().is_safe())));
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
                let rd = i.def_id();
                if rd != d {
                    f.push((
                        "res",
                        jo(&[
                            ("path", js(&self.path(rd))),
                            ("krate", js(tcx.crate_name(rd.krate).as_str())),
                            ("args", self.args(i.args)),
                        ]),
                    ));
                } else if tcx.trait_of_assoc(d).is_some() {
                    f.push(("resdefault", js(&format!("{:?}", matches!(i.def, ty::InstanceKind::Item(_))))));
                }
            }
        }
        jo(&f)
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut f = vec![("k", js("const")), ("ty", js(&self.ty(t)))];
        match t.kind() {
            ty::FnDef(d, a) => f.push(("fn", self.fnref(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder())))),
            ty::Closure(d, _) => f.push(("closure", js(&self.path(*d)))),
            _ => {
                if let Some(s) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
                    f.push(("int", js(&format!("{}", s.to_bits(s.size())))));
                    f.push(("size", s.size().bytes().to_string()));
                }
                let txt = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{}", c.const_)));
                f.push(("txt", js(&txt)));
                match c.const_ {
                    Const::Unevaluated(u, _) => {
                        f.push(("uneval", js(&self.path(u.def))));
                        f.push(("uargs", self.args(u.args)));
                        if let Some(p) = u.promoted {
                            f.push(("promoted", p.index().to_string()));
                        }
                    }
                    _ => {}
                }
            }
        }
        jo(&f)
    }
    fn op(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => jo(&[("k", js("copy")), ("place", self.place(body, *p))]),
            Operand::Move(p) => jo(&[("k", js("move")), ("place", self.place(body, *p))]),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => jo(&[("k", js("rtcheck"))]),
        }
    }
    fn rv(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => jo(&[("k", js("use")), ("o", self.op(body, o))]),
            Rvalue::Repeat(o, n) => jo(&[
                ("k", js("repeat")),
                ("o", self.op(body, o)),
                ("n", js(&format!("{}", n))),
            ]),
            Rvalue::Ref(_, b, p) => jo(&[
                ("k", js("ref")),
                ("mut", format!("{}", matches!(b, BorrowKind::Mut { .. }))),
                ("place", self.place(body, *p)),
            ]),
            Rvalue::RawPtr(k, p) => jo(&[
                ("k", js("rawptr")),
                ("mut", format!("{}", matches!(k, RawPtrKind::Mut))),
                ("place", self.place(body, *p)),
            ]),
            Rvalue::Cast(k, o, t) => jo(&[
                ("k", js("cast")),
                ("kind", js(&format!("{:?}", k))),
                ("o", self.op(body, o)),
                ("ty", js(&self.ty(*t))),
                ("from", js(&self.ty(o.ty(body, self.tcx)))),
            ]),
            Rvalue::BinaryOp(b, ab) => jo(&[
                ("k", js("bin")),
                ("op", js(&format!("{:?}", b))),
                ("a", self.op(body, &ab.0)),
                ("b", self.op(body, &ab.1)),
                ("ty", js(&self.ty(ab.0.ty(body, self.tcx)))),
            ]),
            Rvalue::UnaryOp(u, o) => jo(&[
                ("k", js("un")),
                ("op", js(&format!("{:?}", u))),
                ("a", self.op(body, o)),
                ("ty", js(&self.ty(o.ty(body, self.tcx)))),
            ]),
            Rvalue::Discriminant(p) => jo(&[("k", js("discr")), ("place", self.place(body, *p))]),
            Rvalue::CopyForDeref(p) => jo(&[
                ("k", js("use")),
                ("o", jo(&[("k", js("copy")), ("place", self.place(body, *p))])),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let mut f = vec![("k", js("agg"))];
                match &**k {
                    AggregateKind::Array(_) => f.push(("kind", js("array"))),
                    AggregateKind::Tuple => f.push(("kind", js("tuple"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        f.push(("kind", js("adt")));
                        f.push(("adt", js(&self.path(*d))));
                        f.push(("args", self.args(args)));
                        f.push(("vi", v.index().to_string()));
                        f.push(("variant", js(vd.name.as_str())));
                        f.push(("fields", jl(vd.fields.iter().map(|x| js(x.name.as_str())))));
                    }
                    AggregateKind::Closure(d, _) => {
                        f.push(("kind", js("closure")));
                        f.push(("def", js(&self.path(*d))));
                    }
                    AggregateKind::RawPtr(..) => f.push(("kind", js("rawptr"))),
                    _ => f.push(("kind", js("other"))),
                }
                f.push(("ops", jl(ops.iter().map(|o| self.op(body, o)))));
                jo(&f)
            }
            other => jo(&[("k", js("other")), ("s", js(&format!("{:?}", other)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upv: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(v.name.to_string());
                } else {
                    upv.push(jo(&[("name", js(v.name.as_str())), ("place", self.place(body, p))]));
                }
            }
        }
        let locals = jl(body.local_decls.iter_enumerated().map(|(l, d)| {
            let mut f = vec![("ty", js(&self.ty(d.ty)))];
            if let Some(n) = &names[l.index()] {
                f.push(("name", js(n)));
            }
            jo(&f)
        }));
        let blocks = jl(body.basic_blocks.iter().map(|b| {
            let mut st = vec![];
            for s in &b.statements {
                let sp = js(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        st.push(jo(&[
                            ("k", js("assign")),
                            ("place", self.place(body, pr.0)),
                            ("rv", self.rv(body, &pr.1)),
                            ("sp", sp),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(jo(&[
                        ("k", js("setdiscr")),
                        ("place", self.place(body, **place)),
                        ("v", variant_index.index().to_string()),
                        ("sp", sp),
                    ])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(jo(&[
                            ("k", js("copy_nonoverlapping")),
                            ("src", self.op(body, &c.src)),
                            ("dst", self.op(body, &c.dst)),
                            ("count", self.op(body, &c.count)),
                            ("sp", sp),
                        ])),
                        _ => {}
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = js(&self.span(t.source_info.span));
            let cs = js(&self.span(t.source_info.span.source_callsite()));
            let bb = |x: BasicBlock| x.index().to_string();
            let obb = |x: Option<BasicBlock>| x.map(bb).unwrap_or("null".into());
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => jo(&[("k", js("goto")), ("t", bb(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => jo(&[
                    ("k", js("switch")),
                    ("o", self.op(body, discr)),
                    ("ty", js(&self.ty(discr.ty(body, tcx)))),
                    ("vals", jl(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.index())))),
                    ("else", bb(targets.otherwise())),
                    ("sp", sp),
                ]),
                TerminatorKind::Return => jo(&[("k", js("return"))]),
                TerminatorKind::Unreachable => jo(&[("k", js("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => jo(&[
                    ("k", js("drop")),
                    ("place", self.place(body, *place)),
                    ("ty", js(&self.ty(place.ty(body, tcx).ty))),
                    ("t", bb(*target)),
                    ("sp", sp),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => jo(&[
                    ("k", js("call")),
                    ("f", self.op(body, func)),
                    ("a", jl(args.iter().map(|a| self.op(body, &a.node)))),
                    ("d", self.place(body, *destination)),
                    ("dty", js(&self.ty(destination.ty(body, tcx).ty))),
                    ("t", obb(*target)),
                    ("sp", sp),
                    ("cs", cs),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => jo(&[
                    ("k", js("assert")),
                    ("o", self.op(body, cond)),
                    ("exp", expected.to_string()),
                    ("msg", js(&format!("{:?}", msg).chars().take(60).collect::<String>())),
                    ("t", bb(*target)),
                    ("sp", sp),
                ]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => jo(&[("k", js("resume"))]),
                TerminatorKind::FalseEdge { real_target, .. } => jo(&[("k", js("goto")), ("t", bb(*real_target))]),
                TerminatorKind::FalseUnwind { real_target, .. } => jo(&[("k", js("goto")), ("t", bb(*real_target))]),
                other => jo(&[("k", js("other")), ("s", js(&format!("{:?}", other)))]),
            };
            jo(&[("s", jl(st)), ("t", term), ("cleanup", b.is_cleanup.to_string())])
        }));
        vec![
            ("argc", body.arg_count.to_string()),
            ("locals", locals),
            ("upvars", jl(upv)),
            ("blocks", blocks),
        ]
    }
}

struct Dump {
    out: String,
}

fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut fns: Vec<String> = vec![];
    let mut failed: Vec<String> = vec![];
    let mut keys: Vec<_> = tcx.hir_body_owners().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    for ld in keys {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let cx = Cx { tcx, did, env: TypingEnv::post_analysis(tcx, did) };
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let body: &Body<'tcx> = if isfn {
            tcx.optimized_mir(did)
        } else if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            tcx.mir_for_ctfe(did)
        } else {
            continue;
        };
        let mut f = vec![
            ("id", js(&cx.path(did))),
            ("name", js(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
            ("kind", js(&format!("{:?}", kind))),
            ("sp", js(&cx.span(tcx.def_span(did)))),
            ("csp", js(&cx.span(tcx.def_span(did).source_callsite()))),
        ];
        let parent = tcx.opt_parent(did);
        if let Some(p) = parent {
            f.push(("parent", js(&cx.path(p))));
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    f.push(("impl_self", js(&cx.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip()))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        f.push(("impl_trait", js(&cx.path(tr.def_id))));
                        f.push(("impl_trait_args", cx.args(tr.args)));
                    }
                }
                DefKind::Trait { .. } => f.push(("trait_default", js(&cx.path(p)))),
                _ => {}
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            f.push(("vis", js(&format!("{:?}", tcx.visibility(did)))));
            f.push(("reach", tcx.effective_visibilities(()).is_reachable(ld).to_string()));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            f.push(("unsafe", (!sig.safety().is_safe()).to_string()));
            f.push(("sig", js(&ty::print::with_no_trimmed_paths!(format!("{}", sig)))));
        }
        {
            let g = tcx.generics_of(did);
            let mut names = vec![];
            for i in 0..g.count() {
                names.push(js(g.param_at(i, tcx).name.as_str()));
            }
            f.push(("generics", jl(names)));
        }
        f.extend(cx.body(body));
        let prom = tcx.promoted_mir(did);
        f.push(("promoted", jl(prom.iter().map(|p| jo(&cx.body(p))))));
        let _ = &mut failed;
        fns.push(jo(&f));
    }
    // traits impls
    let mut impls = vec![];
    let mut adts = vec![];
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        let cx = Cx { tcx, did, env: TypingEnv::post_analysis(tcx, did) };
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let mut f = vec![
                    ("self", js(&cx.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip()))),
                    ("sp", js(&cx.span(tcx.def_span(did)))),
                    ("id", js(&cx.path(did))),
                ];
                if of_trait {
                    let h = tcx.impl_trait_header(did);
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    f.push(("trait", js(&cx.path(tr.def_id))));
                    f.push(("trait_args", cx.args(tr.args)));
                    f.push(("neg", js(&format!("{:?}", h.polarity))));
                    f.push(("unsafe", (!h.safety.is_safe()).to_string()));
                }
                let g = tcx.generics_of(did);
                let mut names = vec![];
                for i in 0..g.count() {
                    names.push(js(g.param_at(i, tcx).name.as_str()));
                }
                f.push(("generics", jl(names)));
                f.push((
                    "items",
                    jl(tcx.associated_items(did).in_definition_order().map(|a| {
                        let mut it = vec![("name", js(&a.opt_name().map(|n| n.to_string()).unwrap_or_default())), ("id", js(&cx.path(a.def_id)))];
                        if tcx.def_kind(a.def_id) == DefKind::AssocTy {
                            it.push(("ty", js(&cx.ty(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip()))));
                        }
                        jo(&it)
                    })),
                ));
                impls.push(jo(&f));
            }
            DefKind::Struct | DefKind::Enum => {
                let a = tcx.adt_def(did);
                let vs = jl(a.variants().iter().map(|v| {
                    jo(&[
                        ("name", js(v.name.as_str())),
                        (
                            "fields",
                            jl(v.fields.iter().map(|x| {
                                jo(&[
                                    ("name", js(x.name.as_str())),
                                    ("ty", js(&cx.ty(tcx.type_of(x.did).instantiate_identity().skip_norm_wip()))),
                                    ("vis", js(&format!("{:?}", x.vis))),
                                ])
                            })),
                        ),
                    ])
                }));
                adts.push(jo(&[("id", js(&cx.path(did))), ("variants", vs)]));
            }
            _ => {}
        }
    }
    let s = format!(
        "{{\"crate\":{},\n\"fns\":[\n{}\n],\n\"impls\":[\n{}\n],\n\"adts\":[\n{}\n]}}\n",
        js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
        fns.join(",\n"),
        impls.join(",\n"),
        adts.join(",\n")
    );
    std::fs::write(out, s).expect("write MIR dump");
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump_crate(tcx, &self.out);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_test = args.iter().any(|a| a == "--test");
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if name.as_deref() == Some(want.as_str()) && !is_test && is_lib && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump { out }))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
