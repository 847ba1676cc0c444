//! Compiler wrapper that dumps the type-checked, resolved MIR of the `cgar` crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  For every crate other than `cgar` it behaves exactly as rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        )
    }
    fn id(&self, d: DefId) -> J {
        match d.as_local() {
            Some(l) => J::I(l.local_def_index.as_u32() as i128),
            None => J::Null,
        }
    }
    fn konst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Param(p) => J::A(vec![J::s("cparam"), J::s(p.name.as_str())]),
            _ => {
                if let Some(si) = c.try_to_leaf() {
                    return J::A(vec![J::s("cval"), J::I(si.to_bits_unchecked() as i128)]);
                }
                J::A(vec![J::s("ctext"), J::s(format!("{:?}", c))])
            }
        }
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = Vec::new();
        for x in a.iter() {
            match x.kind() {
                ty::GenericArgKind::Lifetime(_) => {}
                ty::GenericArgKind::Type(t) => v.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => v.push(self.konst(c)),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        use ty::{Adt, Alias, Array, Bool, Char, Closure, Dynamic, Float, FnDef, Int, Never, Param, RawPtr, Ref, Slice, Str, Tuple, Uint};
        let a = |v: Vec<J>| J::A(v);
        match t.kind() {
            Bool => a(vec![J::s("bool")]),
            Char => a(vec![J::s("char")]),
            Int(i) => a(vec![J::s("int"), J::s(i.name_str())]),
            Uint(i) => a(vec![J::s("int"), J::s(i.name_str())]),
            Float(f) => a(vec![J::s("float"), J::s(f.name_str())]),
            Adt(d, args) => a(vec![
                J::s("adt"),
                J::s(self.path(d.did())),
                self.args(args),
            ]),
            Str => a(vec![J::s("str")]),
            Array(t, c) => a(vec![J::s("array"), self.ty(*t), self.konst(*c)]),
            Slice(t) => a(vec![J::s("slice"), self.ty(*t)]),
            RawPtr(t, m) => a(vec![J::s("ptr"), J::B(m.is_mut()), self.ty(*t)]),
            Ref(_, t, m) => a(vec![J::s("ref"), J::B(m.is_mut()), self.ty(*t)]),
            FnDef(d, args) => {
                let args = args.skip_binder();
                a(vec![
                    J::s("fndef"),
                    J::s(self.path((*d).into())),
                    self.id((*d).into()),
                    self.args(args),
                ])
            }
            Closure(d, args) => {
                let did: DefId = (*d).into();
                a(vec![
                    J::s("closure"),
                    J::s(self.path(did)),
                    self.id(did),
                    self.args(args.as_closure().parent_args().into_args(self.tcx)),
                ])
            }
            Never => a(vec![J::s("never")]),
            Tuple(ts) => a(vec![
                J::s("tuple"),
                J::A(ts.iter().map(|t| self.ty(t)).collect()),
            ]),
            Param(p) => a(vec![J::s("param"), J::s(p.name.as_str())]),
            Alias(_, al) => match al.kind {
                ty::AliasTyKind::Projection { def_id } => a(vec![
                    J::s("alias"),
                    J::s(self.path(def_id.into())),
                    self.args(al.args),
                ]),
                _ => a(vec![J::s("opaque"), J::s(format!("{}", t))]),
            },
            Dynamic(..) => a(vec![J::s("dyn"), J::s(format!("{}", t))]),
            _ => a(vec![J::s("other"), J::s(format!("{:?}", t))]),
        }
    }
}

trait IntoArgs<'tcx> {
    fn into_args(self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> IntoArgs<'tcx> for &'tcx [ty::GenericArg<'tcx>] {
    fn into_args(self, tcx: TyCtxt<'tcx>) -> ty::GenericArgsRef<'tcx> {
        tcx.mk_args(self)
    }
}

struct BodyCx<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a mir::Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> BodyCx<'a, 'tcx> {
    fn tcx(&self) -> TyCtxt<'tcx> {
        self.cx.tcx
    }
    fn place(&self, p: &mir::Place<'tcx>) -> J {
        let mut proj = Vec::new();
        let mut pty = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            let j = match e {
                Deref => {
                    let boxed = pty.ty.is_box();
                    J::A(vec![J::s(if boxed { "boxderef" } else { "deref" })])
                }
                Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::TyKind::Adt(d, _) => {
                            let v = pty
                                .variant_index
                                .unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variants()
                                .get(v)
                                .and_then(|v| v.fields.get(f))
                                .map(|f| f.name.to_string())
                                .unwrap_or_default()
                        }
                        _ => String::new(),
                    };
                    J::A(vec![
                        J::s("field"),
                        J::I(f.as_u32() as i128),
                        J::S(name),
                    ])
                }
                Index(l) => J::A(vec![J::s("index"), J::I(l.as_u32() as i128)]),
                ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => J::A(vec![
                    J::s("cindex"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                Subslice { from, to, from_end } => J::A(vec![
                    J::s("subslice"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                Downcast(n, v) => J::A(vec![
                    J::s("downcast"),
                    J::I(v.as_u32() as i128),
                    J::S(n.map(|s| s.to_string()).unwrap_or_default()),
                ]),
                _ => J::A(vec![J::s("opaque")]),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx(), e);
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(proj)])
    }
    fn callee(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx();
        let trait_of = tcx.trait_of_assoc(did);
        let mut resolved = J::Null;
        if trait_of.is_some() {
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args2) {
                if let ty::InstanceKind::Item(d2) = inst.def {
                    if d2 != did || tcx.is_closure_like(d2) {
                        resolved = J::O(vec![
                            ("path", J::s(self.cx.path(d2))),
                            ("id", self.cx.id(d2)),
                            ("args", self.cx.args(inst.args)),
                        ]);
                    }
                }
            }
        }
        J::O(vec![
            ("path", J::s(self.cx.path(did))),
            ("id", self.cx.id(did)),
            ("args", self.cx.args(args)),
            (
                "trait",
                trait_of.map_or(J::Null, |t| J::s(self.cx.path(t))),
            ),
            ("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
            ("resolved", resolved),
        ])
    }
    fn scalar(&self, bits: u128, t: Ty<'tcx>, size: u64) -> J {
        match t.kind() {
            ty::TyKind::Bool => J::A(vec![J::s("bool"), J::B(bits != 0)]),
            ty::TyKind::Int(_) => {
                let sh = 128 - size * 8;
                let v = ((bits as i128) << sh) >> sh;
                J::A(vec![J::s("int"), J::s(v.to_string()), self.cx.ty(t)])
            }
            ty::TyKind::Uint(_) => {
                J::A(vec![J::s("int"), J::s(bits.to_string()), self.cx.ty(t)])
            }
            ty::TyKind::Char => J::A(vec![
                J::s("char"),
                J::s(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
            ]),
            ty::TyKind::Float(ty::FloatTy::F64) => J::A(vec![
                J::s("f64"),
                J::s(format!("{:?}", f64::from_bits(bits as u64))),
                J::s(format!("{}", bits)),
            ]),
            ty::TyKind::Float(ty::FloatTy::F32) => J::A(vec![
                J::s("f64"),
                J::s(format!("{:?}", f32::from_bits(bits as u32) as f64)),
                J::s(format!("{}", (f32::from_bits(bits as u32) as f64).to_bits())),
            ]),
            _ => J::A(vec![J::s("bits"), J::s(bits.to_string()), self.cx.ty(t)]),
        }
    }
    fn konst(&self, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx();
        let t = c.ty();
        if let ty::TyKind::FnDef(d, args) = t.kind() {
            return J::A(vec![
                J::s("fn"),
                self.callee((*d).into(), args.skip_binder()),
            ]);
        }
        if let mir::Const::Ty(_, ct) = c {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return J::A(vec![J::s("cparam"), J::s(p.name.as_str())]);
            }
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return J::A(vec![
                    J::s("promoted"),
                    self.cx.id(u.def),
                    J::I(p.as_u32() as i128),
                    self.cx.args(u.args),
                    self.cx.ty(t),
                ]);
            }
        }
        let mut named = J::Null;
        if let mir::Const::Unevaluated(u, _) = c {
            named = J::s(self.cx.path(u.def));
        }
        if !c.has_param() || matches!(c, mir::Const::Val(..)) || matches!(c, mir::Const::Unevaluated(u,_) if !u.args.has_param()) {
            if let Ok(v) = c.eval(tcx, self.env, rustc_span::DUMMY_SP) {
                match v {
                    mir::ConstValue::Scalar(mir::interpret::Scalar::Int(si)) => {
                        let sz = si.size();
                        let b = si.to_bits(sz);
                        let j = self.scalar(b, t, sz.bytes());
                        if let J::Null = named {
                            return j;
                        }
                        return J::A(vec![J::s("named"), named, j]);
                    }
                    mir::ConstValue::ZeroSized => {
                        return J::A(vec![J::s("zst"), self.cx.ty(t)]);
                    }
                    mir::ConstValue::Slice { alloc_id, meta } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let b = m
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                            return J::A(vec![
                                J::s("str"),
                                J::s(String::from_utf8_lossy(b).into_owned()),
                            ]);
                        }
                    }
                    _ => {}
                }
            }
        }
        if let mir::Const::Unevaluated(u, _) = c {
            return J::A(vec![
                J::s("uneval"),
                J::s(self.cx.path(u.def)),
                self.cx.id(u.def),
                self.cx.args(u.args),
                self.cx.ty(t),
            ]);
        }
        let mut stat = J::Null;
        if let mir::Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c {
            if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                stat = J::s(self.cx.path(d));
            }
        }
        J::A(vec![J::s("text"), J::s(format!("{}", c)), self.cx.ty(t), stat])
    }
    fn operand(&self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![J::s("copy"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![J::s("move"), self.place(p)]),
            mir::Operand::Constant(c) => J::A(vec![J::s("const"), self.konst(&c.const_)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![J::s("const"), J::A(vec![J::s("bool"), J::B(false)])]),
        }
    }
    fn oty(&self, o: &mir::Operand<'tcx>) -> J {
        self.cx.ty(o.ty(&self.body.local_decls, self.tcx()))
    }
    fn rvalue(&self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        let tcx = self.tcx();
        match r {
            Use(o, _) => J::A(vec![J::s("use"), self.operand(o)]),
            Repeat(o, n) => J::A(vec![J::s("repeat"), self.operand(o), self.cx.konst(*n)]),
            Ref(_, bk, p) => J::A(vec![
                J::s("ref"),
                J::B(matches!(bk, mir::BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Reborrow(_, m, p) => J::A(vec![J::s("use"), J::A(vec![J::s("copy"), self.place(p)]), J::B(m.is_mut())]),
            RawPtr(k, p) => J::A(vec![
                J::s("ref"),
                J::B(matches!(k, mir::RawPtrKind::Mut)),
                self.place(p),
            ]),
            Cast(k, o, t) => J::A(vec![
                J::s("cast"),
                J::s(format!("{:?}", k)),
                self.operand(o),
                self.cx.ty(*t),
                self.oty(o),
            ]),
            BinaryOp(op, b) => J::A(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1),
                self.oty(&b.0),
            ]),
            UnaryOp(op, o) => J::A(vec![
                J::s("un"),
                J::s(format!("{:?}", op)),
                self.operand(o),
                self.oty(o),
            ]),
            Discriminant(p) => J::A(vec![
                J::s("discr"),
                self.place(p),
                self.cx.ty(p.ty(&self.body.local_decls, tcx).ty),
            ]),
            Aggregate(k, ops) => {
                let kind = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, _) => {
                        let adt = tcx.adt_def(*d);
                        J::A(vec![
                            J::s("adt"),
                            J::s(self.cx.path(*d)),
                            J::I(v.as_u32() as i128),
                            J::s(adt.variant(*v).name.as_str()),
                            self.cx.args(args),
                        ])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let did: DefId = (*d).into();
                        J::A(vec![
                            J::s("closure"),
                            J::s(self.cx.path(did)),
                            self.cx.id(did),
                            self.cx.args(args.as_closure().parent_args().into_args(tcx)),
                        ])
                    }
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![
                    J::s("agg"),
                    kind,
                    J::A(ops.iter().map(|o| self.operand(o)).collect()),
                ])
            }
            CopyForDeref(p) => J::A(vec![
                J::s("use"),
                J::A(vec![J::s("copy"), self.place(p)]),
            ]),
            _ => J::A(vec![J::s("unknown"), J::s(format!("{:?}", r))]),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        J::I(self.tcx().sess.source_map().lookup_char_pos(sp.lo()).line as i128)
    }
    fn dump(&self) -> (J, J) {
        let mut names: Vec<Option<String>> = vec![None; self.body.local_decls.len()];
        for v in &self.body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() && names[p.local.as_usize()].is_none() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let locals = J::A(
            self.body
                .local_decls
                .iter_enumerated()
                .map(|(l, d)| {
                    J::A(vec![
                        self.cx.ty(d.ty),
                        names[l.as_usize()].clone().map_or(J::Null, J::S),
                    ])
                })
                .collect(),
        );
        let mut blocks = Vec::new();
        for bb in self.body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => st.push(J::A(vec![
                        J::s("assign"),
                        self.place(&b.0),
                        self.rvalue(&b.1),
                        self.line(s.source_info.span),
                    ])),
                    mir::StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => st.push(J::A(vec![
                        J::s("setdiscr"),
                        self.place(place),
                        J::I(variant_index.as_u32() as i128),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            use mir::TerminatorKind::*;
            let bbj = |b: &mir::BasicBlock| J::I(b.as_u32() as i128);
            let tj = match &t.kind {
                Goto { target, .. } => J::A(vec![J::s("goto"), bbj(target)]),
                SwitchInt { discr, targets } => {
                    let mut v = Vec::new();
                    for (val, b) in targets.iter() {
                        v.push(J::A(vec![J::s(val.to_string()), bbj(&b)]));
                    }
                    J::A(vec![
                        J::s("switch"),
                        self.operand(discr),
                        J::A(v),
                        bbj(&targets.otherwise()),
                        self.oty(discr),
                        ln,
                    ])
                }
                Return => J::A(vec![J::s("return")]),
                Unreachable => J::A(vec![J::s("unreachable")]),
                UnwindResume | UnwindTerminate(_) => J::A(vec![J::s("resume")]),
                Drop { place, target, .. } => {
                    J::A(vec![J::s("drop"), self.place(place), bbj(target)])
                }
                Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => J::A(vec![
                    J::s("call"),
                    self.operand(func),
                    J::A(args.iter().map(|a| self.operand(&a.node)).collect()),
                    self.place(destination),
                    target.as_ref().map_or(J::Null, bbj),
                    ln,
                    J::A(args.iter().map(|a| self.oty(&a.node)).collect()),
                    self.cx.ty(destination.ty(&self.body.local_decls, self.tcx()).ty),
                ]),
                Assert {
                    cond,
                    expected,
                    target,
                    msg,
                    ..
                } => J::A(vec![
                    J::s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    bbj(target),
                    J::s(match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) => "div0",
                        mir::AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    }),
                    ln,
                ]),
                other => J::A(vec![J::s("other"), J::s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        (locals, J::A(blocks))
    }
}

fn generics_of<'tcx>(cx: &Cx<'tcx>, did: DefId) -> J {
    let tcx = cx.tcx;
    let mut v = Vec::new();
    let g = tcx.generics_of(did);
    let mut stack = Vec::new();
    let mut cur = Some(g);
    while let Some(x) = cur {
        stack.push(x);
        cur = x.parent.map(|p| tcx.generics_of(p));
    }
    for x in stack.iter().rev() {
        for p in &x.own_params {
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(J::s(p.name.as_str())),
            }
        }
    }
    J::A(v)
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out_path: &str) {
    let cx = Cx { tcx };
    let mut fns = Vec::new();
    let sm = tcx.sess.source_map();
    let mut unsafe_items = Vec::new();
    let mut statics = Vec::new();
    let mut adts = Vec::new();
    let mut traits = Vec::new();
    let mut impls = Vec::new();

    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for l in keys {
        let did = l.to_def_id();
        let kind = tcx.def_kind(did);
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let isconst = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. }
        );
        if !isfn && !isconst {
            continue;
        }
        if isfn && tcx.is_constructor(did) {
            continue;
        }
        let body: &mir::Body<'tcx> = if isconst {
            if !tcx.hir_maybe_body_owned_by(l).is_some() { continue; }
            tcx.mir_for_ctfe(did)
        } else {
            tcx.optimized_mir(did)
        };
        let env = TypingEnv::post_analysis(tcx, did);
        let b = BodyCx {
            cx: &cx,
            body,
            env,
        };
        let (locals, blocks) = b.dump();
        let mut promoted = Vec::new();
        for pb in tcx.promoted_mir(did).iter() {
            let b2 = BodyCx {
                cx: &cx,
                body: pb,
                env,
            };
            let (l2, bl2) = b2.dump();
            promoted.push(J::O(vec![("locals", l2), ("blocks", bl2)]));
        }
        let sp = tcx.def_span(did);
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let parent = tcx.opt_parent(did);
        let mut implj = J::Null;
        let mut traitj = J::Null;
        if let Some(p) = parent {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => implj = cx.id(p),
                DefKind::Trait => traitj = J::s(cx.path(p)),
                _ => {}
            }
        }
        let mut upv = J::Null;
        if let DefKind::Closure = kind {
            upv = J::I(tcx.closure_captures(l).len() as i128);
        }
        let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(did).is_public() };
        let sp_full = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(l));
        let end_line = sm.lookup_char_pos(sp_full.source_callsite().hi()).line;
        fns.push(J::O(vec![
            ("id", cx.id(did)),
            ("path", J::s(cx.path(did))),
            ("name", J::s(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default())),
            ("kind", J::s(format!("{:?}", kind).split(' ').next().unwrap_or("").to_string())),
            ("pub", J::B(vis)),
            ("file", J::S(file)),
            ("line", J::I(lo.line as i128)),
            ("end", J::I(end_line as i128)),
            ("generics", generics_of(&cx, did)),
            ("impl", implj),
            ("trait", traitj),
            ("parent", parent.map_or(J::Null, |p| cx.id(p))),
            ("nargs", J::I(body.arg_count as i128)),
            ("upvars", upv),
            ("locals", locals),
            ("blocks", blocks),
            ("promoted", J::A(promoted)),
            ("expn", J::B(sp.from_expansion())),
        ]));
    }

    // items
    let items = tcx.hir_crate_items(());
    for l in items.definitions() {
        let did = l.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let d = tcx.adt_def(did);
                let mut vs = Vec::new();
                for v in d.variants() {
                    let mut fs = Vec::new();
                    for f in &v.fields {
                        fs.push(J::A(vec![
                            J::s(f.name.as_str()),
                            cx.ty(tcx.type_of(f.did).skip_binder()),
                            J::B(f.vis.is_public()),
                        ]));
                    }
                    vs.push(J::O(vec![("name", J::s(v.name.as_str())), ("fields", J::A(fs))]));
                }
                adts.push(J::O(vec![
                    ("path", J::s(cx.path(did))),
                    ("kind", J::s(format!("{:?}", tcx.def_kind(did)))),
                    ("generics", generics_of(&cx, did)),
                    ("variants", J::A(vs)),
                ]));
            }
            DefKind::Trait => {
                let mut v = Vec::new();
                for it in tcx.associated_items(did).in_definition_order() {
                    v.push(J::A(vec![
                        J::s(it.name().as_str()),
                        cx.id(it.def_id),
                        J::B(it.defaultness(tcx).has_value()),
                    ]));
                }
                traits.push(J::O(vec![
                    ("path", J::s(cx.path(did))),
                    ("generics", generics_of(&cx, did)),
                    ("items", J::A(v)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let self_ty = cx.ty(tcx.type_of(did).skip_binder());
                let mut tr = J::Null;
                let mut unsafe_impl = false;
                if of_trait {
                    let t = tcx.impl_trait_ref(did).skip_binder();
                    tr = J::O(vec![
                        ("path", J::s(cx.path(t.def_id))),
                        ("args", cx.args(t.args)),
                    ]);
                    unsafe_impl = tcx.impl_trait_header(did).safety.is_unsafe();
                    if unsafe_impl {
                        unsafe_items.push(J::A(vec![
                            J::s("unsafe impl"),
                            J::s(format!("{}", tcx.type_of(did).skip_binder())),
                            J::s(cx.path(t.def_id)),
                        ]));
                    }
                }
                let mut v = Vec::new();
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.opt_name().is_some() {
                        let is_ty = matches!(it.kind, ty::AssocKind::Type { .. });
                        let tyj = if is_ty { cx.ty(tcx.type_of(it.def_id).skip_binder()) } else { J::Null };
                        v.push(J::A(vec![J::s(it.name().as_str()), cx.id(it.def_id), tyj]));
                    }
                }
                impls.push(J::O(vec![
                    ("id", cx.id(did)),
                    ("self", self_ty),
                    ("trait", tr),
                    ("generics", generics_of(&cx, did)),
                    ("unsafe", J::B(unsafe_impl)),
                    ("derived", J::B(tcx.def_span(did).from_expansion())),
                    ("items", J::A(v)),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).skip_binder();
                statics.push(J::A(vec![
                    J::s(cx.path(did)),
                    cx.ty(t),
                    J::B(mutability.is_mut()),
                    J::B(t.is_freeze(tcx, TypingEnv::post_analysis(tcx, did))),
                ]));
            }
            _ => {}
        }
    }
    // auto traits of the crate's types, type parameters standing for each scalar kind in turn
    let mut auto = Vec::new();
    {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let scalar_trait = items.definitions().map(|l| l.to_def_id()).find(|d| {
            matches!(tcx.def_kind(*d), DefKind::Trait) && tcx.item_name(*d).as_str() == "Scalar"
        });
        let mut scalars: Vec<Ty<'tcx>> = Vec::new();
        if let Some(st) = scalar_trait {
            for i in tcx.all_impls(st) {
                scalars.push(tcx.type_of(i).skip_binder());
            }
        }
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let env = ty::ParamEnv::empty();
        for l in items.definitions() {
            let did = l.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            for (k, sc) in scalars.iter().enumerate() {
                let mut ok = true;
                let mut any = false;
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => {
                        any = true;
                        (*sc).into()
                    }
                    ty::GenericParamDefKind::Const { .. } => {
                        let ct = tcx.type_of(p.def_id).skip_binder();
                        if ct != tcx.types.usize {
                            ok = false;
                        }
                        ty::Const::from_target_usize(tcx, 3).into()
                    }
                });
                if !ok || (!any && k > 0) {
                    continue;
                }
                let t = Ty::new_adt(tcx, tcx.adt_def(did), args);
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                let holds = |tr: Option<DefId>| match tr {
                    Some(tr) => J::B(infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()),
                    None => J::Null,
                };
                auto.push(J::A(vec![
                    J::s(cx.path(did)),
                    J::s(format!("{}", t)),
                    J::B(tcx.visibility(did).is_public()),
                    holds(send),
                    holds(sync),
                ]));
            }
        }
    }
    // unsafe blocks and unsafe fns
    struct V<'tcx> {
        tcx: TyCtxt<'tcx>,
        found: Vec<(String, usize)>,
    }
    impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                let p = self.tcx.sess.source_map().lookup_char_pos(b.span.lo());
                self.found.push((
                    format!("{}", p.file.name.prefer_local_unconditionally()),
                    p.line,
                ));
            }
            rustc_hir::intravisit::walk_block(self, b);
        }
    }
    let mut v = V {
        tcx,
        found: Vec::new(),
    };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    for (f, l) in v.found {
        unsafe_items.push(J::A(vec![J::s("unsafe block"), J::S(f), J::I(l as i128)]));
    }

    let j = J::O(vec![
        ("crate", J::s("cgar")),
        ("fns", J::A(fns)),
        ("impls", J::A(impls)),
        ("adts", J::A(adts)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("unsafe", J::A(unsafe_items)),
        ("auto", J::A(auto)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    let tmp = format!("{}.tmp{}", out_path, std::process::id());
    std::fs::write(&tmp, s).expect("write facts");
    std::fs::rename(&tmp, out_path).expect("rename facts");
}

struct Dump {
    out: String,
}
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut is_cgar = false;
    let mut test = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == "cgar" {
            is_cgar = true;
        }
    }
    for a in &args {
        if a == "--test" {
            test = true;
        }
    }
    let out = std::env::var("CGAR_FACTS_OUT").ok();
    if is_cgar && !test {
        if let Some(out) = out {
            for f in [
                "-Zmir-opt-level=0",
                "-Zinline-mir=no",
                "-Coverflow-checks=off",
                "-Cdebug-assertions=off",
                "--cap-lints=allow",
            ] {
                args.push(f.to_string());
            }
            let mut d = Dump { out };
            return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut d));
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
}
