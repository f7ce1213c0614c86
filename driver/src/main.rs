//! Dumps the monomorphic, fully resolved MIR of one crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <rustc args..>`. Nothing of the analysed
//! crate is executed; the compiler is stopped after its own analyses and its program
//! representation is written to $MIRDUMP_OUT.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

fn n<T: std::fmt::Display>(t: T) -> J {
    J::N(t.to_string())
}
fn s<T: Into<String>>(t: T) -> J {
    J::S(t.into())
}

impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.out(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.out(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- state
struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    inst_out: Vec<J>,
    queue: VecDeque<(usize, Instance)>,
}

fn stop(name: &str) -> bool {
    // never needed: diverging / formatting machinery of the standard library
    ["fmt::", "panicking", "panic_", "unwrap_failed", "expect_failed", "std::io", "backtrace"]
        .iter()
        .any(|p| name.contains(p))
}

impl<'tcx> Cx<'tcx> {
    fn vidx(&self, v: &VariantIdx) -> usize {
        rustc_public::rustc_internal::internal(self.tcx, *v).as_usize()
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let j = self.ty_body(t);
        self.ty_out[i] = j;
        i
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let v = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(n(self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(v) => J::O(vec![("const", n(v))]),
                    Err(_) => s(format!("{:?}", c)),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        J::A(v)
    }

    fn ty_body(&mut self, t: Ty) -> J {
        let name = format!("{}", t);
        let kind = t.kind();
        let mut o: Vec<(&'static str, J)> = vec![("name", s(name))];
        let r = match kind {
            TyKind::RigidTy(r) => r,
            other => {
                o.push(("k", s("other")));
                o.push(("dbg", s(format!("{:?}", other))));
                return J::O(o);
            }
        };
        match r {
            RigidTy::Bool => o.push(("k", s("bool"))),
            RigidTy::Char => o.push(("k", s("char"))),
            RigidTy::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.num_bytes() * 8)));
                o.push(("signed", J::B(true)));
            }
            RigidTy::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.num_bytes() * 8)));
                o.push(("signed", J::B(false)));
            }
            RigidTy::Str => o.push(("k", s("str"))),
            RigidTy::Never => o.push(("k", s("never"))),
            RigidTy::Slice(t) => {
                o.push(("k", s("slice")));
                o.push(("to", n(self.ty(t))));
            }
            RigidTy::Array(t, len) => {
                o.push(("k", s("array")));
                o.push(("to", n(self.ty(t))));
                o.push(("len", len.eval_target_usize().map(n).unwrap_or(J::Null)));
            }
            RigidTy::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("to", n(self.ty(t))));
                o.push(("mut", J::B(m == Mutability::Mut)));
            }
            RigidTy::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("to", n(self.ty(t))));
                o.push(("mut", J::B(m == Mutability::Mut)));
            }
            RigidTy::Tuple(v) => {
                o.push(("k", s("tuple")));
                let f = v.iter().map(|t| n(self.ty(*t))).collect();
                o.push(("fields", J::A(f)));
            }
            RigidTy::FnDef(def, ref args) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(def.name().to_string())));
                o.push(("args", self.args(args)));
                if let Ok(i) = Instance::resolve(def, args) {
                    o.push(("inst", n(self.inst(i))));
                }
            }
            RigidTy::Closure(def, ref args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(def.name().to_string())));
                let it = rustc_public::rustc_internal::internal(self.tcx, t);
                if let rustc_middle::ty::TyKind::Closure(_, a) = it.kind() {
                    let k = match a.as_closure().kind() {
                        rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                        rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                        rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                    };
                    o.push(("ck", s(format!("{:?}", k))));
                    let ups: Vec<_> = a.as_closure().upvar_tys().iter().collect();
                    let mut f = vec![];
                    for u in ups {
                        let st = rustc_public::rustc_internal::stable(u);
                        f.push(n(self.ty(st)));
                    }
                    o.push(("upvars", J::A(f)));
                    if let Ok(i) = Instance::resolve_closure(def, args, k) {
                        o.push(("inst", n(self.inst(i))));
                    }
                }
            }
            RigidTy::Adt(def, ref args) => {
                o.push(("k", s("adt")));
                let dn = def.name().to_string();
                let krate = def.krate().name.to_string();
                o.push(("def", s(dn)));
                o.push(("local", J::B(def.krate().is_local)));
                o.push(("krate", s(krate.clone())));
                o.push(("args", self.args(args)));
                let ak = if t.kind().is_enum() {
                    "enum"
                } else if t.kind().is_struct() {
                    "struct"
                } else {
                    "union"
                };
                o.push(("ak", s(ak)));
                if def.krate().is_local || krate == "core" {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(args);
                            fs.push(J::O(vec![
                                ("name", s(f.name.to_string())),
                                ("ty", n(self.ty(ft))),
                            ]));
                        }
                        let mut e = vec![("name", s(v.name().to_string())), ("fields", J::A(fs))];
                        if ak == "enum" {
                            e.push(("discr", n(def.discriminant_for_variant(v.idx()).val)));
                        }
                        vs.push(J::O(e));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            other => {
                o.push(("k", s("other")));
                o.push(("dbg", s(format!("{:?}", other))));
            }
        }
        J::O(o)
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let x = self.inst_out.len();
        self.insts.insert(i, x);
        self.inst_out.push(J::Null);
        self.queue.push_back((x, i));
        x
    }

    fn run(&mut self) {
        while let Some((x, i)) = self.queue.pop_front() {
            let j = self.inst_body(i);
            self.inst_out[x] = j;
        }
    }

    fn inst_body(&mut self, i: Instance) -> J {
        let name = i.name().to_string();
        let tname = i.trimmed_name().to_string();
        let krate = i.def.krate();
        let kn = krate.name.to_string();
        let defname = i.def.name().to_string();
        let args = i.args();
        let mut o = vec![
            ("name", s(name.clone())),
            ("tname", s(tname)),
            ("def", s(defname.clone())),
            ("krate", s(kn.clone())),
            ("local", J::B(krate.is_local)),
            ("args", self.args(&args)),
            (
                "kind",
                s(match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                }),
            ),
        ];
        if i.is_empty_shim() {
            o.push(("empty_shim", J::B(true)));
        }
        let fty = i.ty();
        if let Some(sig) = fty.kind().fn_sig() {
            let sig = sig.skip_binder();
            let ins: Vec<_> = sig.inputs().to_vec();
            let mut v = vec![];
            for t in ins {
                v.push(n(self.ty(t)));
            }
            o.push(("sig_in", J::A(v)));
            o.push(("sig_out", n(self.ty(sig.output()))));
        }
        let want = (krate.is_local || kn == "core")
            && !stop(&name)
            && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim);
        if want {
            if let Some(b) = i.body() {
                let j = self.body(&b);
                o.push(("body", j));
            }
        }
        J::O(o)
    }

    fn span(&self, sp: Span) -> J {
        let l = sp.get_lines();
        J::A(vec![s(sp.get_filename().to_string()), n(l.start_line)])
    }

    fn body(&mut self, b: &Body) -> J {
        let mut locals = vec![];
        for l in b.locals() {
            locals.push(n(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                if let Some(j) = self.stmt(x, b) {
                    st.push(j);
                }
            }
            let t = self.term(&bb.terminator, b);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t)]));
        }
        J::O(vec![
            ("args", n(b.arg_locals().len())),
            ("spread", b.spread_arg().map(n).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("span", self.span(b.span)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(i, t) => J::A(vec![s("field"), n(i), n(self.ty(*t))]),
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("cindex"),
                    n(offset),
                    n(min_length),
                    J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), n(from), n(to), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => {
                    J::A(vec![s("down"), n(self.vidx(v))])
                }
                ProjectionElem::OpaqueCast(t) => J::A(vec![s("ocast"), n(self.ty(*t))]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &Operand) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = self.konst(&c.const_);
                J::A(vec![s("const"), n(ti), v])
            }
            Operand::RuntimeChecks(r) => J::A(vec![s("rtcheck"), s(format!("{:?}", r))]),
        }
    }

    fn konst(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty()),
            ConstantKind::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t),
                TyConstKind::ZSTValue(_) => J::O(vec![("zst", J::B(true))]),
                _ => J::O(vec![("unk", s(format!("{:?}", tc)))]),
            },
            other => J::O(vec![("unk", s(format!("{:?}", other)))]),
        }
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> J {
        self.decode2(a, off, t).unwrap_or_else(|| J::O(vec![("unk", s(format!("{}", t)))]))
    }

    fn uint(&self, a: &Allocation, off: usize, size: usize) -> Option<u128> {
        if size == 0 {
            return Some(0);
        }
        if off + size > a.bytes.len() {
            return None;
        }
        a.read_partial_uint(off..off + size).ok()
    }

    fn decode2(&mut self, a: &Allocation, off: usize, t: Ty) -> Option<J> {
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return None,
        };
        match r {
            RigidTy::Bool => Some(J::O(vec![("bool", n(self.uint(a, off, 1)?))])),
            RigidTy::Char => Some(J::O(vec![("int", n(self.uint(a, off, 4)?))])),
            RigidTy::Uint(_) => Some(J::O(vec![("int", n(self.uint(a, off, size)?))])),
            RigidTy::Int(_) => {
                let u = self.uint(a, off, size)?;
                let sh = 128 - size * 8;
                Some(J::O(vec![("int", n(((u << sh) as i128) >> sh))]))
            }
            RigidTy::Tuple(ref v) => {
                let offs = match &shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.clone(),
                    _ => vec![],
                };
                let mut o = vec![];
                for (i, ft) in v.iter().enumerate() {
                    o.push(self.decode(a, off + offs.get(i)?.bytes(), *ft));
                }
                Some(J::O(vec![("tuple", J::A(o))]))
            }
            RigidTy::Array(et, ref len) => {
                let l = len.eval_target_usize().ok()? as usize;
                let es = et.layout().ok()?.shape().size.bytes();
                let mut o = vec![];
                for i in 0..l {
                    o.push(self.decode(a, off + i * es, et));
                }
                Some(J::O(vec![("array", J::A(o))]))
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let addr = self.uint(a, off, 8)? as usize;
                let prov = a.provenance.ptrs.iter().find(|(p, _)| *p == off).map(|(_, p)| p.0);
                let al = match prov {
                    Some(id) => match GlobalAlloc::from(id) {
                        GlobalAlloc::Memory(m) => m,
                        GlobalAlloc::Static(d) => {
                            let id = rustc_public::rustc_internal::internal(self.tcx, d.def_id());
                            let t = rustc_public::rustc_internal::internal(self.tcx, d.ty());
                            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                            if self.tcx.is_mutable_static(id) || !t.is_freeze(self.tcx, env) {
                                return Some(J::O(vec![("static", s(d.name().to_string()))]));
                            }
                            d.eval_initializer().ok()?
                        }
                        _ => return None,
                    },
                    None => return None,
                };
                match to.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let l = self.uint(a, off + 8, 8)? as usize;
                        let mut o = vec![];
                        for i in 0..l {
                            o.push(n(al.bytes[addr + i]?));
                        }
                        Some(J::O(vec![("str", J::A(o))]))
                    }
                    TyKind::RigidTy(RigidTy::Slice(et)) => {
                        let l = self.uint(a, off + 8, 8)? as usize;
                        let es = et.layout().ok()?.shape().size.bytes();
                        let mut o = vec![];
                        for i in 0..l {
                            o.push(self.decode(&al, addr + i * es, et));
                        }
                        Some(J::O(vec![("ref", J::O(vec![("array", J::A(o))]))]))
                    }
                    _ => {
                        let d = self.decode(&al, addr, to);
                        Some(J::O(vec![("ref", d)]))
                    }
                }
            }
            RigidTy::Adt(def, ref args) => {
                let variants = def.variants();
                if variants.is_empty() {
                    return None;
                }
                let (vi, offs) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let offs: Vec<usize> = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                offsets.iter().map(|o| o.bytes()).collect()
                            }
                            _ => vec![],
                        };
                        (self.vidx(index), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vf } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let ts = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                            _ => return None,
                        };
                        let raw = self.uint(a, off + toff, ts)?;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mask =
                                    if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                variants.iter().position(|v| {
                                    def.discriminant_for_variant(v.idx()).val & mask == raw
                                })?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let st = self.vidx(niche_variants.start());
                                let en = self.vidx(niche_variants.end());
                                let mask =
                                    if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                // a pointer is never null, whatever its offset in the allocation
                                let ptr = a.provenance.ptrs.iter().any(|(p, _)| *p == off + toff);
                                if !ptr && (rel as usize) <= en - st && rel < 1 << 32 {
                                    st + rel as usize
                                } else {
                                    self.vidx(untagged_variant)
                                }
                            }
                        };
                        let offs = vf[vi].offsets.iter().map(|o| o.bytes()).collect();
                        (vi, offs)
                    }
                    VariantsShape::Empty => return None,
                };
                let mut o = vec![];
                for (i, f) in variants[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(args);
                    o.push(self.decode(a, off + offs.get(i)?, ft));
                }
                Some(J::O(vec![("variant", n(vi)), ("fields", J::A(o))]))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Some(J::O(vec![("zst", J::B(true))])),
            _ => None,
        }
    }

    fn stmt(&mut self, x: &Statement, _b: &Body) -> Option<J> {
        Some(match &x.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(p);
                let r = self.rvalue(r, _b);
                J::A(vec![s("="), p, r, n(x.source_info.span.get_lines().start_line)])
            }
            StatementKind::SetDiscriminant { place, variant_index } => J::A(vec![
                s("setdiscr"),
                self.place(place),
                n(self.vidx(variant_index)),
            ]),
            StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l)]),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) => {
                J::A(vec![s("assume"), self.operand(op)])
            }
            StatementKind::Intrinsic(_) => J::A(vec![s("copynonoverlapping")]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, b: &Body) -> J {
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(op)]),
            Rvalue::Repeat(op, c) => J::A(vec![
                s("repeat"),
                self.operand(op),
                c.eval_target_usize().map(n).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(*m == Mutability::Mut)])
            }
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("copy"), p])])
            }
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Discriminant(p) => {
                let t = r.ty(b.locals()).ok().map(|t| self.ty(t));
                J::A(vec![s("discr"), self.place(p), t.map(n).unwrap_or(J::Null)])
            }
            Rvalue::BinaryOp(o, x, y) => J::A(vec![
                s("bin"),
                s(format!("{:?}", o)),
                self.operand(x),
                self.operand(y),
                self.opty(x, b),
            ]),
            Rvalue::CheckedBinaryOp(o, x, y) => J::A(vec![
                s("cbin"),
                s(format!("{:?}", o)),
                self.operand(x),
                self.operand(y),
                self.opty(x, b),
            ]),
            Rvalue::UnaryOp(o, x) => {
                J::A(vec![s("un"), s(format!("{:?}", o)), self.operand(x), self.opty(x, b)])
            }
            Rvalue::Cast(k, x, t) => J::A(vec![
                s("cast"),
                s(format!("{:?}", k)),
                self.operand(x),
                n(self.ty(*t)),
                self.opty(x, b),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        J::A(vec![
                            s("adt"),
                            n(self.ty(t)),
                            n(self.vidx(v)),
                            f.map(n).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        J::A(vec![s("closure"), n(self.ty(t))])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), n(self.ty(*t))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(c) => J::A(vec![s("tls"), s(c.name().to_string())]),
        }
    }

    fn opty(&mut self, x: &Operand, b: &Body) -> J {
        match x.ty(b.locals()) {
            Ok(t) => n(self.ty(t)),
            Err(_) => J::Null,
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> J {
        let line = n(t.source_info.span.get_lines().start_line);
        match &t.kind {
            TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = targets.branches().map(|(v, t)| J::A(vec![n(v), n(t)])).collect();
                J::A(vec![
                    s("switch"),
                    self.operand(discr),
                    J::A(br),
                    n(targets.otherwise()),
                    self.opty(discr, b),
                ])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Resume => J::A(vec![s("resume")]),
            TerminatorKind::Abort => J::A(vec![s("abort")]),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(place);
                let ty = place.ty(b.locals()).ok();
                let inst = match ty {
                    Some(t) => {
                        let i = Instance::resolve_drop_in_place(t);
                        s(i.name().to_string())
                    }
                    None => J::Null,
                };
                J::A(vec![s("drop"), p, n(target), inst])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(b.locals()).ok();
                let f = match fty {
                    Some(t) => n(self.ty(t)),
                    None => J::Null,
                };
                let fop = self.operand(func);
                let mut av = vec![];
                let mut at = vec![];
                for a in args {
                    av.push(self.operand(a));
                    at.push(self.opty(a, b));
                }
                let dty = destination.ty(b.locals()).ok().map(|t| self.ty(t));
                J::A(vec![
                    s("call"),
                    f,
                    fop,
                    J::A(av),
                    J::A(at),
                    self.place(destination),
                    dty.map(n).unwrap_or(J::Null),
                    target.map(n).unwrap_or(J::Null),
                    line,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds",
                    AssertMessage::Overflow(..) => "arithmetic overflow",
                    AssertMessage::OverflowNeg(_) => "negation overflow",
                    AssertMessage::DivisionByZero(_) => "division by zero",
                    AssertMessage::RemainderByZero(_) => "remainder by zero",
                    AssertMessage::MisalignedPointerDereference { .. } => "misaligned pointer",
                    AssertMessage::NullPointerDereference => "null pointer",
                    _ => "assertion",
                };
                J::A(vec![s("assert"), self.operand(cond), J::B(*expected), s(m), n(target), line])
            }
            TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
        }
    }
}

fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_out: vec![],
        queue: VecDeque::new(),
    };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut statics = vec![];
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if item.requires_monomorphization() {
                    generic.push(s(item.name().to_string()));
                } else if let Ok(i) = Instance::try_from(item) {
                    roots.push(n(cx.inst(i)));
                }
            }
            ItemKind::Static => statics.push(s(item.name().to_string())),
            _ => {}
        }
        let _: CrateItem = item;
    }
    cx.run();
    let krate = rustc_public::local_crate();
    let mut adts = vec![];
    for a in krate.adts() {
        let t = a.ty();
        let _ = &t;
        adts.push(s(a.name().to_string()));
    }
    cx.run();
    let j = J::O(vec![
        ("crate", s(krate.name.to_string())),
        ("roots", J::A(roots)),
        ("generic", J::A(generic)),
        ("statics", J::A(statics)),
        ("adts", J::A(adts)),
        ("tys", J::A(std::mem::take(&mut cx.ty_out))),
        ("insts", J::A(std::mem::take(&mut cx.inst_out))),
    ]);
    let mut o = String::new();
    j.out(&mut o);
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper convention: argv[1] is the real compiler
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1));
    if name.map(|x| *x == target).unwrap_or(false) {
        let r = rustc_public::run_with_tcx!(&args, |tcx| rustc_middle::ty::print::with_no_trimmed_paths!(analyse(tcx)));
        match r {
            Ok(_) => {}
            Err(e) => {
                eprintln!("mirdump: {:?}", e);
                std::process::exit(1);
            }
        }
    } else {
        let rustc = std::env::var("MIRDUMP_RUSTC").unwrap_or_else(|_| "rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
