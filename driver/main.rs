// Extraction driver: dumps the type-checked program (MIR, resolved callees, constants, items) of the
// workspace crate as JSON. It is a plain rustc wrapper; no code of the crate is executed.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    format!(
        "{{{}}}",
        v.into_iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    )
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        // Crate-qualified, stable path including impl disambiguation by trait and type.
        let tcx = self.tcx;
        rustc_middle::ty::print::with_no_trimmed_paths!({
            if d.is_local() {
                format!("{}::{}", tcx.crate_name(LOCAL_CRATE), tcx.def_path_str(d))
            } else {
                tcx.def_path_str(d)
            }
        })
    }
    fn id(&self, d: DefId) -> String {
        esc(&format!("{:?}", d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(esc(&format!("{}", t)))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s0 = s;
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let mut name = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, lo.line))
    }
    fn scalar_bytes(&self, b: &[u8], t: Ty<'tcx>) -> Option<String> {
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        Some(obj(vec![("k", esc("bits")), ("v", esc(&v.to_string())), ("ty", self.ty(t))]))
    }
    fn layout_size(&self, t: Ty<'tcx>) -> Option<u64> {
        let te = TypingEnv::fully_monomorphized();
        self.tcx.layout_of(te.as_query_input(t)).ok().map(|l| l.size.bytes())
    }
    fn decode_mem(&self, alloc: &interpret::Allocation, off: u64, t: Ty<'tcx>, len: Option<u64>) -> Option<String> {
        let tcx = self.tcx;
        let te = TypingEnv::fully_monomorphized();
        match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                let sz = self.layout_size(t)?;
                let r = off as usize..(off + sz) as usize;
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(r);
                self.scalar_bytes(b, t)
            }
            TyKind::Array(et, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let sz = self.layout_size(*et)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode_mem(alloc, off + i * sz, *et, None)?);
                }
                Some(obj(vec![("k", esc("array")), ("v", arr(v)), ("ty", self.ty(t))]))
            }
            TyKind::Slice(et) => {
                let n = len?;
                let sz = self.layout_size(*et)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode_mem(alloc, off + i * sz, *et, None)?);
                }
                Some(obj(vec![("k", esc("array")), ("v", arr(v)), ("ty", self.ty(t))]))
            }
            TyKind::Str => {
                let n = len?;
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                Some(obj(vec![("k", esc("str")), ("v", esc(&String::from_utf8_lossy(b)))]))
            }
            TyKind::Tuple(ts) => {
                let l = tcx.layout_of(te.as_query_input(t)).ok()?;
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let fo = l.fields.offset(i).bytes();
                    v.push(self.decode_mem(alloc, off + fo, ft, None)?);
                }
                Some(obj(vec![("k", esc("tuple")), ("v", arr(v)), ("ty", self.ty(t))]))
            }
            TyKind::Adt(def, args) if def.is_struct() => {
                let l = tcx.layout_of(te.as_query_input(t)).ok()?;
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let fo = l.fields.offset(i).bytes();
                    v.push(self.decode_mem(alloc, off + fo, ft, None)?);
                }
                Some(obj(vec![("k", esc("struct")), ("v", arr(v)), ("ty", self.ty(t))]))
            }
            TyKind::Ref(_, inner, _) => {
                // follow provenance
                let psz = 8u64;
                let prov = alloc.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
                let aid = prov.alloc_id();
                let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + psz) as usize);
                let mut o: u64 = 0;
                for (i, x) in b.iter().enumerate() {
                    o |= (*x as u64) << (8 * i);
                }
                let mut ln = None;
                if matches!(inner.kind(), TyKind::Slice(_) | TyKind::Str) {
                    let b = alloc.inspect_with_uninit_and_ptr_outside_interpreter((off + psz) as usize..(off + 2 * psz) as usize);
                    let mut n: u64 = 0;
                    for (i, x) in b.iter().enumerate() {
                        n |= (*x as u64) << (8 * i);
                    }
                    ln = Some(n);
                }
                match tcx.global_alloc(aid) {
                    interpret::GlobalAlloc::Memory(m) => {
                        let v = self.decode_mem(m.inner(), o, *inner, ln)?;
                        Some(obj(vec![("k", esc("ref")), ("v", v)]))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn const_val(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let b = i.to_bits(i.size());
                Some(obj(vec![("k", esc("bits")), ("v", esc(&b.to_string())), ("ty", self.ty(t))]))
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        interpret::GlobalAlloc::Memory(m) => {
                            let v = self.decode_mem(m.inner(), off.bytes(), *inner, None)?;
                            Some(obj(vec![("k", esc("ref")), ("v", v)]))
                        }
                        interpret::GlobalAlloc::Static(d) => Some(obj(vec![("k", esc("static")), ("path", esc(&self.path(d)))])),
                        _ => None,
                    }
                } else {
                    match tcx.global_alloc(p.prov_and_relative_offset().0.alloc_id()) {
                        interpret::GlobalAlloc::Static(d) => Some(obj(vec![("k", esc("static")), ("path", esc(&self.path(d)))])),
                        _ => None,
                    }
                }
            }
            ConstValue::ZeroSized => Some(obj(vec![("k", esc("zst")), ("ty", self.ty(t))])),
            ConstValue::Slice { alloc_id, meta } => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    match tcx.global_alloc(alloc_id) {
                        interpret::GlobalAlloc::Memory(m) => {
                            let v = self.decode_mem(m.inner(), 0, *inner, Some(meta))?;
                            Some(obj(vec![("k", esc("ref")), ("v", v)]))
                        }
                        _ => None,
                    }
                } else {
                    None
                }
            }
            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                interpret::GlobalAlloc::Memory(m) => self.decode_mem(m.inner(), offset.bytes(), t, None),
                _ => None,
            },
        }
    }
    fn fn_def(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut out = vec![
            ("path", esc(&self.path(d))),
            ("id", self.id(d)),
            ("crate", esc(tcx.crate_name(d.krate).as_str())),
            ("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
            (
                "args",
                arr(args
                    .iter()
                    .map(|a| rustc_middle::ty::print::with_no_trimmed_paths!(esc(&format!("{}", a))))
                    .collect()),
            ),
            (
                "arg_closures",
                arr(args
                    .types()
                    .map(|a| match a.kind() {
                        TyKind::Closure(d, _) => self.id(*d),
                        TyKind::FnDef(d, a2) => self.id(*d),
                        _ => "null".to_string(),
                    })
                    .collect()),
            ),
        ];
        let unsafe_ = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && format!("{:?}", tcx.fn_sig(d).skip_binder().safety()).contains("Unsafe");
        out.push(("unsafe", unsafe_.to_string()));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            out.push(("trait", esc(&self.path(tr))));
            out.push(("self_ty", if args.len() > 0 && args[0].as_type().is_some() { self.ty(args.type_at(0)) } else { "null".into() }));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            out.push(("impl_self", self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
        }
        out
    }
    fn konst(&self, c: &ConstOperand<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = t.kind() {
            let mut v = vec![("k", esc("fn"))];
            v.extend(self.fn_def(*d, args.no_bound_vars().expect("late-bound fn args")));
            return obj(v);
        }
        let mut extra: Vec<(&str, String)> = vec![];
        match c.const_ {
            Const::Unevaluated(uv, _) => {
                if let Some(p) = uv.promoted {
                    return obj(vec![
                        ("k", esc("promoted")),
                        ("id", self.id(uv.def)),
                        ("idx", p.as_usize().to_string()),
                        ("ty", self.ty(t)),
                    ]);
                }
                extra.push(("named", esc(&self.path(uv.def))));
            }
            _ => {}
        }
        let te = TypingEnv::post_analysis(tcx, body.source.def_id());
        let v = match c.const_.eval(tcx, te, c.span) {
            Ok(v) => self.const_val(v, t),
            Err(_) => None,
        };
        let val = v.unwrap_or_else(|| obj(vec![("k", esc("opaque")), ("dbg", esc(&format!("{:?}", c.const_)))]));
        let mut o = vec![("k", esc("const")), ("ty", self.ty(t)), ("val", val)];
        o.extend(extra);
        obj(o)
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                PlaceElem::Deref => obj(vec![("p", esc("deref"))]),
                PlaceElem::Field(f, t) => obj(vec![("p", esc("field")), ("i", f.as_usize().to_string()), ("ty", self.ty(t))]),
                PlaceElem::Index(l) => obj(vec![("p", esc("index")), ("l", l.as_usize().to_string())]),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => obj(vec![
                    ("p", esc("cindex")),
                    ("o", offset.to_string()),
                    ("min", min_length.to_string()),
                    ("end", from_end.to_string()),
                ]),
                PlaceElem::Subslice { from, to, from_end } => obj(vec![
                    ("p", esc("subslice")),
                    ("from", from.to_string()),
                    ("to", to.to_string()),
                    ("end", from_end.to_string()),
                ]),
                PlaceElem::Downcast(n, v) => obj(vec![("p", esc("downcast")), ("v", v.as_usize().to_string())]),
                other => obj(vec![("p", esc("other")), ("dbg", esc(&format!("{:?}", other)))]),
            });
        }
        obj(vec![("l", p.local.as_usize().to_string()), ("pr", arr(pr))])
    }
    fn operand(&self, o: &Operand<'tcx>, body: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(vec![("k", esc("copy")), ("pl", self.place(p, body))]),
            Operand::Move(p) => obj(vec![("k", esc("move")), ("pl", self.place(p, body))]),
            Operand::Constant(c) => self.konst(c, body),
            other => obj(vec![("k", esc("rtcheck")), ("dbg", esc(&format!("{:?}", other)))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => obj(vec![("k", esc("use")), ("o", self.operand(o, body))]),
            Rvalue::Repeat(o, n) => obj(vec![
                ("k", esc("repeat")),
                ("o", self.operand(o, body)),
                ("n", n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            ]),
            Rvalue::Ref(_, bk, p) => obj(vec![
                ("k", esc("ref")),
                ("mut", matches!(bk, BorrowKind::Mut { .. }).to_string()),
                ("pl", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => obj(vec![("k", esc("rawptr")), ("pl", self.place(p, body))]),
            Rvalue::Cast(k, o, t) => obj(vec![
                ("k", esc("cast")),
                ("ck", esc(&format!("{:?}", k))),
                ("o", self.operand(o, body)),
                ("from", self.ty(o.ty(body, tcx))),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, ab) => obj(vec![
                ("k", esc("bin")),
                ("op", esc(&format!("{:?}", op))),
                ("a", self.operand(&ab.0, body)),
                ("b", self.operand(&ab.1, body)),
                ("ty", self.ty(ab.0.ty(body, tcx))),
            ]),
            Rvalue::UnaryOp(op, a) => obj(vec![
                ("k", esc("un")),
                ("op", esc(&format!("{:?}", op))),
                ("a", self.operand(a, body)),
                ("ty", self.ty(a.ty(body, tcx))),
            ]),
            Rvalue::Discriminant(p) => obj(vec![("k", esc("discr")), ("pl", self.place(p, body)), ("ty", self.ty(p.ty(body, tcx).ty))]),
            Rvalue::Aggregate(k, ops) => {
                let (kind, extra): (&str, Vec<(&str, String)>) = match &**k {
                    AggregateKind::Tuple => ("tuple", vec![]),
                    AggregateKind::Array(_) => ("array", vec![]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(tcx, *v).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        (
                            "adt",
                            vec![
                                ("path", esc(&self.path(*d))),
                                ("variant", v.as_usize().to_string()),
                                ("vname", esc(def.variant(*v).name.as_str())),
                                ("discr", discr),
                                ("enum", def.is_enum().to_string()),
                            ],
                        )
                    }
                    AggregateKind::Closure(d, _) => ("closure", vec![("id", self.id(*d))]),
                    _ => ("other", vec![]),
                };
                let mut v = vec![("k", esc("agg")), ("ak", esc(kind)), ("ops", arr(ops.iter().map(|o| self.operand(o, body)).collect()))];
                v.extend(extra);
                obj(v)
            }
            Rvalue::CopyForDeref(p) => obj(vec![("k", esc("use")), ("o", obj(vec![("k", esc("copy")), ("pl", self.place(p, body))]))]),
            Rvalue::ThreadLocalRef(d) => obj(vec![("k", esc("tls")), ("path", esc(&self.path(*d)))]),
            other => obj(vec![("k", esc("other")), ("dbg", esc(&format!("{:?}", other)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            locals.push(self.ty(d.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(arr(vec![esc(v.name.as_str()), self.place(&p, body)]));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => st.push(obj(vec![
                        ("s", esc("assign")),
                        ("pl", self.place(&pr.0, body)),
                        ("rv", self.rvalue(&pr.1, body)),
                        ("sp", self.span(s.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { .. } => st.push(obj(vec![("s", esc("setdiscr")), ("dbg", esc(&format!("{:?}", s)))])),
                    StatementKind::Intrinsic(i) => st.push(obj(vec![("s", esc("intrinsic")), ("dbg", esc(&format!("{:?}", i)))])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let bb = |x: BasicBlock| x.as_usize().to_string();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => obj(vec![("t", esc("goto")), ("to", bb(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => obj(vec![
                    ("t", esc("switch")),
                    ("o", self.operand(discr, body)),
                    ("ty", self.ty(discr.ty(body, tcx))),
                    ("cases", arr(targets.iter().map(|(v, b)| arr(vec![esc(&v.to_string()), bb(b)])).collect())),
                    ("else", bb(targets.otherwise())),
                    ("sp", sp),
                ]),
                TerminatorKind::Return => obj(vec![("t", esc("return"))]),
                TerminatorKind::Unreachable => obj(vec![("t", esc("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => obj(vec![
                    ("t", esc("drop")),
                    ("pl", self.place(place, body)),
                    ("ty", self.ty(place.ty(body, tcx).ty)),
                    ("to", bb(*target)),
                ]),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => obj(vec![
                    ("t", esc("call")),
                    ("f", self.operand(func, body)),
                    ("args", arr(args.iter().map(|a| self.operand(&a.node, body)).collect())),
                    ("argtys", arr(args.iter().map(|a| self.ty(a.node.ty(body, tcx))).collect())),
                    ("dst", self.place(destination, body)),
                    ("dty", self.ty(destination.ty(body, tcx).ty)),
                    ("to", target.map(bb).unwrap_or("null".into())),
                    ("sp", sp),
                    ("macro", esc(&{
                        let e = t.source_info.span.ctxt().outer_expn_data();
                        match e.macro_def_id { Some(d) => self.path(d), None => String::new() }
                    })),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, mops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, body), self.operand(index, body)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow_{:?}", op), vec![self.operand(a, body), self.operand(b, body)]),
                        AssertKind::OverflowNeg(a) => ("overflow_neg".into(), vec![self.operand(a, body)]),
                        AssertKind::DivisionByZero(a) => ("div_zero".into(), vec![self.operand(a, body)]),
                        AssertKind::RemainderByZero(a) => ("rem_zero".into(), vec![self.operand(a, body)]),
                        other => ("other".into(), vec![]),
                    };
                    obj(vec![
                        ("t", esc("assert")),
                        ("o", self.operand(cond, body)),
                        ("exp", expected.to_string()),
                        ("msg", esc(&mk)),
                        ("mops", arr(mops)),
                        ("to", bb(*target)),
                        ("sp", sp),
                    ])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => obj(vec![("t", esc("unwind"))]),
                TerminatorKind::FalseEdge { real_target, .. } => obj(vec![("t", esc("goto")), ("to", bb(*real_target))]),
                TerminatorKind::FalseUnwind { real_target, .. } => obj(vec![("t", esc("goto")), ("to", bb(*real_target))]),
                other => obj(vec![("t", esc("other")), ("dbg", esc(&format!("{:?}", other)))]),
            };
            blocks.push(obj(vec![("st", arr(st)), ("term", term), ("cleanup", b.is_cleanup.to_string())]));
        }
        obj(vec![
            ("argc", body.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
            ("sp", self.span(body.span)),
        ])
    }
    fn dump(&self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut consts = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            if !is_fn {
                consts.push(obj(vec![
                    ("id", self.id(d)),
                    ("path", esc(&self.path(d))),
                    ("kind", esc(&format!("{:?}", kind))),
                    ("ty", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                    ("sp", self.span(tcx.def_span(d))),
                ]));
                continue;
            }
            let body = tcx.optimized_mir(d);
            let mut v: Vec<(&str, String)> = vec![
                ("id", self.id(d)),
                ("path", esc(&self.path(d))),
                ("name", esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
                ("kind", esc(&format!("{:?}", kind))),
                ("sp", self.span(tcx.def_span(d))),
                ("vis", esc(&if matches!(kind, DefKind::Closure) { "closure".to_string() } else { format!("{:?}", tcx.visibility(d)) })),
            ];
            if !matches!(kind, DefKind::Closure) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                v.push(("inputs", arr(sig.inputs().iter().map(|t| self.ty(*t)).collect())));
                v.push(("output", self.ty(sig.output())));
                v.push(("unsafe", format!("{:?}", sig.safety()).contains("Unsafe").to_string()));
                v.push(("reachable", tcx.effective_visibilities(()).is_reachable(*ld).to_string()));
            }
            if let Some(imp) = tcx.impl_of_assoc(d) {
                v.push(("self_ty", self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    v.push(("trait", esc(&self.path(tr.skip_binder().def_id))));
                }
                let auto_derived = tcx.is_automatically_derived(imp);
                v.push(("derived", auto_derived.to_string()));
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                v.push(("of_trait", esc(&self.path(tr))));
            }
            let gens = tcx.generics_of(d);
            let mut gn = vec![];
            let mut g = Some(gens);
            while let Some(x) = g {
                let mut part: Vec<String> = x.own_params.iter().map(|p| esc(p.name.as_str())).collect();
                part.extend(gn);
                gn = part;
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            v.push(("generics", arr(gn)));
            v.push(("body", self.body(body)));
            let prom = tcx.promoted_mir(d);
            v.push(("promoted", arr(prom.iter().map(|b| self.body(b)).collect())));
            fns.push(obj(v));
        }
        // structs and impls
        let mut structs = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut uses = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                obj(vec![
                                    ("name", esc(f.name.as_str())),
                                    ("ty", self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    ("vis", esc(&format!("{:?}", f.vis))),
                                ])
                            })
                            .collect();
                        vs.push(obj(vec![("name", esc(v.name.as_str())), ("fields", arr(fs))]));
                    }
                    structs.push(obj(vec![
                        ("path", esc(&self.path(d))),
                        ("kind", esc(&format!("{:?}", tcx.def_kind(d)))),
                        ("vis", esc(&format!("{:?}", tcx.visibility(d)))),
                        ("variants", arr(vs)),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| esc(&self.path(t.skip_binder().def_id))).unwrap_or("null".into());
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| arr(vec![esc(&i.opt_name().map(|s| s.to_string()).unwrap_or_default()), self.id(i.def_id)]))
                        .collect();
                    impls.push(obj(vec![("self", st), ("trait", tr), ("items", arr(items)), ("sp", self.span(tcx.def_span(d))), ("derived", tcx.is_automatically_derived(d).to_string())]));
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| arr(vec![esc(&i.opt_name().map(|s| s.to_string()).unwrap_or_default()), self.id(i.def_id), i.defaultness(tcx).has_value().to_string()]))
                        .collect();
                    impls.push(obj(vec![("self", "null".into()), ("trait_def", esc(&self.path(d))), ("items", arr(items))]));
                }
                DefKind::Static { .. } => {
                    statics.push(obj(vec![
                        ("path", esc(&self.path(d))),
                        ("ty", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                        ("kind", esc(&format!("{:?}", tcx.def_kind(d)))),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Use | DefKind::ExternCrate => {
                    uses.push(esc(&format!("{:?} {}", tcx.def_kind(d), self.span(tcx.def_span(d)))));
                }
                _ => {}
            }
        }
        // exported names: module children reachable from the root
        let mut exports = vec![];
        let mut stack = vec![(LOCAL_CRATE.as_def_id(), String::from("probability"))];
        let mut seen = std::collections::HashSet::new();
        while let Some((m, p)) = stack.pop() {
            if !seen.insert(m) {
                continue;
            }
            let children = if m.is_local() { tcx.module_children_local(m.expect_local()) } else { tcx.module_children(m) };
            for ch in children.iter() {
                if !ch.vis.is_public() {
                    continue;
                }
                let q = format!("{}::{}", p, ch.ident.name);
                if let Some(did) = ch.res.opt_def_id() {
                    exports.push(arr(vec![esc(&q), esc(&format!("{:?}", tcx.def_kind(did))), esc(&self.path(did))]));
                    if tcx.def_kind(did) == DefKind::Mod && did.is_local() {
                        stack.push((did, q));
                    }
                }
            }
        }
        let crates: Vec<String> = tcx.crates(()).iter().map(|c| esc(tcx.crate_name(*c).as_str())).collect();
        let attrs: Vec<String> = tcx.hir_krate_attrs().iter().map(|a| esc(&format!("{:?}", a).chars().take(200).collect::<String>())).collect();
        obj(vec![
            ("crate", esc(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("debug_assertions", tcx.sess.opts.debug_assertions.to_string()),
            ("overflow_checks", tcx.sess.overflow_checks().to_string()),
            ("fns", arr(fns)),
            ("consts", arr(consts)),
            ("structs", arr(structs)),
            ("impls", arr(impls)),
            ("statics", arr(statics)),
            ("exports", arr(exports)),
            ("crates", arr(crates)),
            ("attrs", arr(attrs)),
        ])
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let d = D { tcx };
            std::fs::write(out, d.dump()).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probability");
    let out = if is_target { std::env::var("VP_MIR_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zalways-encode-mir=yes".into());
    }
    args.push("--cap-lints=allow".into());
    let code = rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out }));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
