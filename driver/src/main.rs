//! rustc_private driver: dumps resolved MIR facts of every workspace crate it compiles as JSON.
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
fn esc(v: &str, o: &mut String) {
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(v) => esc(v, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    me: &'static str,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> D<'tcx> {
    fn fixs(&self, x: String) -> String {
        let mut out = String::with_capacity(x.len());
        let b = x.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if x[i..].starts_with("crate::")
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
            {
                out.push_str(self.me);
                out.push_str("::");
                i += 7;
            } else {
                let c = x[i..].chars().next().unwrap();
                out.push(c);
                i += c.len_utf8();
            }
        }
        out
    }
    fn path(&self, d: DefId) -> String {
        let x = with_no_visible_paths!(with_crate_prefix!(with_no_trimmed_paths!(self.tcx.def_path_str(d))));
        self.fixs(x)
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let x = with_no_visible_paths!(with_crate_prefix!(with_no_trimmed_paths!(format!("{t}"))));
        self.fixs(x)
    }
    fn note_adt(&mut self, a: ty::AdtDef<'tcx>) {
        let did = a.did();
        if self.adt_seen.insert(did, ()).is_some() {
            return;
        }
        let crate_name = self.tcx.crate_name(did.krate);
        let keep = did.is_local()
            || crate_name.as_str() == "cdx"
            || (a.is_enum() && a.variants().len() <= 8);
        if !keep {
            return;
        }
        let mut vs = vec![];
        for (vi, v) in a.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                let t = if did.is_local() || crate_name.as_str() == "cdx" { self.ty(fty) } else { usize::MAX };
                fs.push(J::O(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", if t == usize::MAX { J::N } else { n(t) }),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            let discr = if a.is_enum() {
                J::I(a.discriminant_for_variant(self.tcx, vi).val as i128)
            } else {
                J::N
            };
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", discr),
                ("fields", J::A(fs)),
            ]));
        }
        let p = self.path(did);
        self.adts.push(J::O(vec![
            ("path", s(p)),
            ("enum", J::B(a.is_enum())),
            ("local", J::B(did.is_local())),
            ("hasdrop", J::B(self.tcx.adt_destructor(did).is_some())),
            ("variants", J::A(vs)),
        ]));
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(J::N);
        self.tmap.insert(t, idx);
        let mut o = vec![("s", s(self.tystr(t)))];
        match t.kind() {
            ty::Adt(a, args) => {
                self.note_adt(*a);
                o.push(("k", s("adt")));
                o.push(("d", s(self.path(a.did()))));
                let v: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(v)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let i = self.ty(*x);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let i = self.ty(*x);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                o.push(("k", s(if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" })));
                let i = self.ty(*x);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::Tuple(xs) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = xs.iter().map(|x| n(self.ty(x))).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                let d: DefId = (*d).into();
                o.push(("d", s(self.path(d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                let d: DefId = (*d).into();
                o.push(("d", s(self.path(d))));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    let d: DefId = d.into();
                    o.push(("d", s(self.path(d))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("d", s(p.name.to_string())));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[idx] = J::O(o);
        idx
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => pr.push(s("*")),
                ProjectionElem::Field(f, fty) => {
                    let mut name = None;
                    let mut owner = None;
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if a.is_struct() || a.is_enum() || a.is_union() {
                            if vi.as_usize() < a.variants().len() {
                                let v = a.variant(vi);
                                if f.as_usize() < v.fields.len() {
                                    name = Some(v.fields[f].name.to_string());
                                }
                                owner = Some(self.path(a.did()));
                            }
                        }
                    }
                    let t = self.ty(fty);
                    pr.push(J::A(vec![
                        s("f"),
                        n(f.as_usize()),
                        name.map(J::S).unwrap_or(J::N),
                        owner.map(J::S).unwrap_or(J::N),
                        n(t),
                    ]));
                }
                ProjectionElem::Index(l) => pr.push(J::A(vec![s("i"), n(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    pr.push(J::A(vec![s("ci"), n(offset as usize), J::B(from_end)]))
                }
                ProjectionElem::Subslice { .. } => pr.push(J::A(vec![s("ss")])),
                ProjectionElem::Downcast(nm, v) => pr.push(J::A(vec![
                    s("v"),
                    n(v.as_usize()),
                    nm.map(|x| s(x.to_string())).unwrap_or(J::N),
                ])),
                _ => pr.push(J::A(vec![s("o")])),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let tot = a.len();
                let end = match len {
                    Some(l) => off + l,
                    None => tot,
                };
                if end > tot {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", n(ti))];
        if let ty::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let args = args.skip_binder();
            o.push(("fn", s(self.path(d))));
            let ga: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| n(self.ty(x))).collect();
            o.push(("ga", J::A(ga)));
            let cr = self.tcx.crate_name(d.krate).to_string();
            o.push(("crate", s(cr)));
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(tr))));
            }
            // resolve
            let eargs = self.tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, eargs) {
                match inst.def {
                    ty::InstanceKind::Virtual(vd, _) => {
                        o.push(("virt", s(self.path(vd))));
                    }
                    ty::InstanceKind::Item(id) | ty::InstanceKind::Intrinsic(id) => {
                        o.push(("res", s(self.path(id))));
                        let ra: Vec<J> = inst.args.types().collect::<Vec<_>>().into_iter().map(|x| n(self.ty(x))).collect();
                        o.push(("ra", J::A(ra)));
                    }
                    _ => {
                        o.push(("shim", s(format!("{:?}", inst.def))));
                    }
                }
            }
            return J::O(o);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("prom", n(p.as_usize())));
                    o.push(("promof", s(self.path(u.def))));
                } else {
                    o.push(("named", s(self.path(u.def))));
                }
            }
            _ => {}
        }
        let unev_prom = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        let val = if unev_prom {
            None
        } else {
            match c.const_ {
                Const::Val(v, _) => Some(v),
                _ => c.const_.eval(self.tcx, env, c.span).ok(),
            }
        };
        if let Some(v) = val {
            self.constval(v, t, &mut o);
        }
        J::O(o)
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        match v {
            ConstValue::Scalar(sc) => match sc {
                interpret::Scalar::Int(i) => {
                    let bits = i.to_bits(i.size());
                    let val: i128 = if let ty::Int(_) = t.kind() {
                        i.size().sign_extend(bits)
                    } else {
                        bits as i128
                    };
                    o.push(("v", J::I(val)));
                    if let ty::Float(_) = t.kind() {
                        if i.size().bytes() == 8 {
                            o.push(("fl", s(format!("{:?}", f64::from_bits(bits as u64)))));
                        }
                    }
                }
                interpret::Scalar::Ptr(p, _) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    match self.tcx.global_alloc(id) {
                        GlobalAlloc::Static(d) => o.push(("static", s(self.path(d)))),
                        GlobalAlloc::Function { instance } => {
                            o.push(("fnref", s(self.path(instance.def_id()))))
                        }
                        GlobalAlloc::Memory(_) => {
                            if let Some(b) = self.alloc_bytes(id, off.bytes() as usize, None) {
                                if b.len() <= 4096 {
                                    o.push(("bytes", s(latin(&b))));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            },
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.alloc_bytes(alloc_id, 0, Some(meta as usize)) {
                    let is_str = t.peel_refs().is_str();
                    if is_str {
                        o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                    } else {
                        o.push(("bytes", s(latin(&b))));
                    }
                }
            }
            ConstValue::Indirect { .. } => {
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() || a.is_struct() {
                        o.push(("indirect", J::B(true)));
                    }
                }
            }
        }
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p, body))]),
            Operand::Constant(c) => self.constant(c, env),
            _ => J::O(vec![("k", s("rt"))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("o", self.operand(o, body, env))]),
            Rvalue::Repeat(o, _) => J::O(vec![("k", s("repeat")), ("o", self.operand(o, body, env))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p, body)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(p, body))]),
            Rvalue::Cast(ck, o, t) => {
                let ti = self.ty(*t);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{ck:?}"))),
                    ("o", self.operand(o, body, env)),
                    ("ty", n(ti)),
                ])
            }
            Rvalue::BinaryOp(b, xs) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{b:?}"))),
                ("l", self.operand(&xs.0, body, env)),
                ("r", self.operand(&xs.1, body, env)),
            ]),
            Rvalue::UnaryOp(u, o) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{u:?}"))),
                ("o", self.operand(o, body, env)),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("p", self.place(p, body))]),
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("k", s("copy")), ("p", self.place(p, body))])),
            ]),
            Rvalue::Aggregate(ak, ops) => {
                let mut o: Vec<(&'static str, J)> = vec![("k", s("agg"))];
                match &**ak {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, ..) => {
                        let a = self.tcx.adt_def(*d);
                        self.note_adt(a);
                        o.push(("ak", s("adt")));
                        o.push(("d", s(self.path(*d))));
                        o.push(("vi", n(vi.as_usize())));
                        o.push(("vn", s(a.variant(*vi).name.to_string())));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("d", s(self.path(*d))));
                    }
                    _ => o.push(("ak", s("other"))),
                }
                let v: Vec<J> = ops.iter().map(|x| self.operand(x, body, env)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            other => J::O(vec![("k", s("other")), ("s", s(format!("{other:?}")))]),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> (usize, String) {
        let sp0 = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp0.lo());
        (loc.line, format!("{}", loc.file.name.prefer_local_unconditionally()))
    }
    fn mac(&self, sp: rustc_span::Span) -> J {
        if !sp.from_expansion() {
            return J::N;
        }
        let mut names: Vec<J> = vec![];
        for e in sp.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, nm) = e.kind {
                names.push(s(nm.to_string()));
            }
        }
        if names.is_empty() { J::N } else { J::A(names) }
    }
    fn body(&mut self, def: DefId, body: &Body<'tcx>, name: String, kind: &'static str) -> J {
        let env = ty::TypingEnv::post_analysis(self.tcx, def);
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(n(t));
        }
        let mut vars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p, body);
                vars.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (ln, _) = self.line(x.source_info.span);
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, env);
                        st.push(J::A(vec![s("="), p, r, n(ln)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (ln, _) = self.line(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("d", self.operand(discr, body, env)));
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::I(v as i128), n(b.as_usize())]))
                        .collect();
                    o.push(("ts", J::A(v)));
                    o.push(("else", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("p", self.place(place, body)));
                    let pty = place.ty(body, self.tcx).ty;
                    let ti = self.ty(pty);
                    o.push(("ty", n(ti)));
                    o.push(("t", n(target.as_usize())));
                    if let UnwindAction::Cleanup(c) = unwind {
                        o.push(("u", n(c.as_usize())));
                    }
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(func, body, env)));
                    let v: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    o.push(("args", J::A(v)));
                    o.push(("d", self.place(destination, body)));
                    o.push(("t", target.map(|x| n(x.as_usize())).unwrap_or(J::N)));
                    if let UnwindAction::Cleanup(c) = unwind {
                        o.push(("u", n(c.as_usize())));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("c", self.operand(cond, body, env)));
                    o.push(("e", J::B(*expected)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflowneg",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    o.push(("m", s(m)));
                    if let AssertKind::BoundsCheck { len, index } = &**msg {
                        o.push(("len", self.operand(len, body, env)));
                        o.push(("idx", self.operand(index, body, env)));
                    }
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("abort"))),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                _ => o.push(("k", s("other"))),
            }
            o.push(("ln", n(ln)));
            let m = self.mac(t.source_info.span);
            if !matches!(m, J::N) {
                o.push(("mac", m));
            }
            bbs.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        let (ln, file) = self.line(self.tcx.def_span(def));
        J::O(vec![
            ("path", s(name)),
            ("kind", s(kind)),
            ("file", s(file)),
            ("line", n(ln)),
            ("args", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("vars", J::A(vars)),
            ("exp", J::B(self.tcx.def_span(def).from_expansion())),
            ("bbs", J::A(bbs)),
        ])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("CDXFACTS_OUT") else { return Compilation::Continue };
        let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
        let me: &'static str = if is_bin { "bin" } else { "cdx" };
        let mut d = D { tcx, me, types: vec![], tmap: HashMap::new(), adts: vec![], adt_seen: HashMap::new() };
        let mut bodies = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
        for k in keys {
            let did = k.to_def_id();
            let dk = tcx.def_kind(did);
            let name = d.path(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(did) {
                        continue;
                    }
                    let b = tcx.optimized_mir(did);
                    let j = d.body(did, b, name.clone(), if dk == DefKind::Closure { "closure" } else { "fn" });
                    bodies.push(j);
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(did);
                    let j = d.body(did, b, name.clone(), "const");
                    bodies.push(j);
                }
                _ => continue,
            }
            for (pi, pb) in tcx.promoted_mir(did).iter_enumerated() {
                let j = d.body(did, pb, format!("{name}#p{}", pi.as_usize()), "promoted");
                bodies.push(j);
            }
        }
        // impls, traits and functions' visibility
        let mut impls = vec![];
        let mut traits = vec![];
        let mut fns = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let selfty = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let st = d.ty(selfty);
                    let tr = if of_trait {
                        let r = tcx.impl_trait_ref(did).instantiate_identity().skip_normalization();
                        s(d.path(r.def_id.into()))
                    } else {
                        J::N
                    };
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if it.is_fn() {
                            let tn = it.trait_item_def_id().map(|x| s(d.path(x))).unwrap_or(J::N);
                            items.push(J::A(vec![s(it.name().to_string()), s(d.path(it.def_id)), tn]));
                        }
                    }
                    impls.push(J::O(vec![
                        ("self", n(st)),
                        ("trait", tr),
                        ("items", J::A(items)),
                        ("derived", J::B(tcx.def_span(did).from_expansion())),
                    ]));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if it.is_fn() {
                            items.push(J::A(vec![
                                s(it.name().to_string()),
                                s(d.path(it.def_id)),
                                J::B(it.defaultness(tcx).has_value()),
                            ]));
                        }
                    }
                    traits.push(J::O(vec![("path", s(d.path(did))), ("items", J::A(items))]));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_normalization();
                    fns.push(J::O(vec![
                        ("path", s(d.path(did))),
                        ("pub", J::B(tcx.visibility(did).is_public())),
                        ("unsafe", J::B(format!("{:?}", sig.safety()) == "Unsafe")),
                    ]));
                }
                _ => {}
            }
        }
        let types = std::mem::take(&mut d.types);
        let adts = std::mem::take(&mut d.adts);
        let doc = J::O(vec![
            ("crate", s(me)),
            ("types", J::A(types)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("fns", J::A(fns)),
            ("bodies", J::A(bodies)),
        ]);
        let mut o = String::new();
        doc.w(&mut o);
        let fname = format!("{out}/{me}.json");
        std::fs::write(&fname, o).expect("write facts");
        Compilation::Continue
    }
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_dump = args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    if is_dump {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
