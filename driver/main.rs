// MIR dumper: a rustc driver that writes the monomorphised, type-checked MIR reachable from the crate's own functions as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::const_eval::mk_eval_cx_for_const_val;
use rustc_const_eval::interpret::{OpTy, Projectable};
use rustc_driver_impl as rdi;
use rdi::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::DUMMY_SP;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

/// `*` matches any run of characters
fn glob(pat: &str, s: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    let Some(mut rest) = s.strip_prefix(parts[0]) else { return false };
    for p in &parts[1..parts.len() - 1] {
        match rest.find(p) {
            Some(i) => rest = &rest[i + p.len()..],
            None => return false,
        }
    }
    rest.ends_with(parts[parts.len() - 1])
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    ty_work: VecDeque<Ty<'tcx>>,
    fns: HashMap<Instance<'tcx>, usize>,
    fn_work: VecDeque<Instance<'tcx>>,
    fn_out: Vec<String>,
    allow: Vec<String>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tstr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(None);
        self.ty_work.push_back(t);
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    fn emit_ty(&mut self, t: Ty<'tcx>) {
        let s = esc(&self.tstr(t));
        let j = match *t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            ty::Int(_) | ty::Uint(_) => {
                let bits = t.primitive_size(self.tcx).bits();
                format!("{{\"k\":\"int\",\"s\":{s},\"bits\":{bits},\"signed\":{}}}", t.is_signed())
            }
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            ty::Ref(_, u, m) => {
                let u = self.ty(u);
                format!("{{\"k\":\"ref\",\"s\":{s},\"ty\":{u},\"mut\":{}}}", m.is_mut())
            }
            ty::RawPtr(u, m) => {
                let u = self.ty(u);
                format!("{{\"k\":\"ptr\",\"s\":{s},\"ty\":{u},\"mut\":{}}}", m.is_mut())
            }
            ty::Slice(u) => {
                let u = self.ty(u);
                format!("{{\"k\":\"slice\",\"s\":{s},\"ty\":{u}}}")
            }
            ty::Array(u, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                let u = self.ty(u);
                format!("{{\"k\":\"array\",\"s\":{s},\"ty\":{u},\"len\":{n}}}")
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{s},\"tys\":{}}}", arr(v))
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let f = self.fnref(d, args);
                format!("{{\"k\":\"fndef\",\"s\":{s},\"fn\":{f}}}")
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| {
                    let x = self.norm(x);
                    self.ty(x).to_string()
                }).collect();
                let inst = Instance::new_raw(d, args);
                let f = if self.tcx.is_mir_available(d) && d.is_local() { self.func(inst) as i64 } else { -1 };
                format!("{{\"k\":\"closure\",\"s\":{s},\"path\":{},\"fnid\":{f},\"tys\":{}}}", esc(&self.path(d)), arr(ups))
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                    }
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"discr\":\"{d}\",\"fields\":{}}}", esc(v.name.as_str()), arr(fs)));
                }
                let ga: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let lay = self.tcx.layout_of(self.env.as_query_input(t));
                let mut extra = String::new();
                if let Ok(l) = lay {
                    let _ = write!(extra, ",\"size\":{}", l.size.bytes());
                    if def.is_struct() {
                        let offs: Vec<String> = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                        let _ = write!(extra, ",\"offsets\":{}", arr(offs));
                    }
                }
                let r = def.repr();
                format!("{{\"k\":\"adt\",\"s\":{s},\"kind\":\"{kind}\",\"path\":{},\"local\":{},\"args\":{},\"variants\":{},\"reprc\":{}{extra}}}",
                    esc(&self.path(def.did())), def.did().is_local(), arr(ga), arr(vs), r.c())
            }
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        let i = self.tys[&t];
        self.ty_out[i] = Some(j);
    }
    fn allowed(&self, p: &str) -> bool {
        self.allow.iter().any(|s| glob(s, p))
    }
    /// JSON for a reference to a function item
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let callee = self.path(d);
        let full = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, args));
        let ga: Vec<String> = args.types().map(|x| { let x = self.norm(x); self.ty(x).to_string() }).collect();
        let mut out = format!("{{\"path\":{},\"full\":{},\"targs\":{}", esc(&callee), esc(&full), arr(ga));
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, args) {
                out.push_str(&self.instref(inst, &callee));
            }
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args).skip_norm_wip().skip_binder();
            let o = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig.output()));
            if let ty::Adt(def, _) = *o.kind() {
                let v = def.variant_index_with_ctor_id(d).as_usize();
                let t = self.ty(o);
                let _ = write!(out, ",\"ctor\":[{t},{v}]");
            }
        }
        out.push('}');
        out
    }
    fn instref(&mut self, inst: Instance<'tcx>, _callee: &str) -> String {
        let rp = self.path(inst.def_id());
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
            _ => "other",
        };
        let mut o = format!(",\"rpath\":{},\"ikind\":\"{kind}\"", esc(&rp));
        let tr = self.tcx.impl_of_assoc(inst.def_id()).map(|i| self.tcx.type_of(i).instantiate_identity().skip_norm_wip());
        if let Some(t) = tr {
            let _ = write!(o, ",\"self\":{}", esc(&self.tstr(t)));
        }
        let has = match inst.def {
            InstanceKind::Item(d) => self.tcx.is_mir_available(d) && !matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) ,
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        };
        let local = inst.def_id().is_local();
        let _ = write!(o, ",\"local\":{local}");
        if has && (local || self.allowed(&rp)) {
            let id = self.func(inst);
            let _ = write!(o, ",\"id\":{id}");
        }
        o
    }
    fn func(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(&i) = self.fns.get(&inst) {
            return i;
        }
        let i = self.fns.len();
        self.fns.insert(inst, i);
        self.fn_work.push_back(inst);
        i
    }
    fn cval(&mut self, val: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        if let Some((ecx, op)) = mk_eval_cx_for_const_val(tcx.at(DUMMY_SP), self.env, val, t) {
            self.cop(&ecx, &op, 0)
        } else {
            format!("{{\"opaque\":{}}}", esc(&format!("{:?}", val)))
        }
    }
    fn cop(&mut self, ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> String {
        let t = op.layout.ty;
        let opaque = |s: &Self| format!("{{\"opaque\":{}}}", esc(&s.tstr(t)));
        if depth > 12 {
            return opaque(self);
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match ecx.read_scalar(op).discard_err() {
                Some(s) => match s.try_to_scalar_int() {
                    Ok(i) => {
                        let u = i.to_bits_unchecked();
                        let sz = i.size();
                        if t.is_signed() { format!("{{\"i\":\"{}\"}}", sz.sign_extend(u)) } else { format!("{{\"i\":\"{}\"}}", u) }
                    }
                    Err(_) => opaque(self),
                },
                None => opaque(self),
            },
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    match ecx.project_field(op, FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.cop(ecx, &f, depth + 1)),
                        None => return opaque(self),
                    }
                }
                format!("{{\"agg\":{}}}", arr(v))
            }
            ty::Adt(def, _) if def.is_union() => opaque(self),
            ty::Adt(def, _) => {
                if def.variants().is_empty() { return opaque(self); }
                let Some(var) = ecx.read_discriminant(op).discard_err() else { return opaque(self) };
                let Some(down) = (if def.is_enum() { ecx.project_downcast(op, var).discard_err() } else { Some(op.clone()) }) else { return opaque(self) };
                let n = def.variants()[var].fields.len();
                let mut v = vec![];
                for i in 0..n {
                    match ecx.project_field(&down, FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.cop(ecx, &f, depth + 1)),
                        None => return opaque(self),
                    }
                }
                format!("{{\"agg\":{},\"v\":{},\"ty\":{}}}", arr(v), var.as_u32(), self.ty(t))
            }
            ty::Array(..) | ty::Slice(..) => {
                let Some(n) = op.len(ecx).discard_err() else { return opaque(self) };
                if n > 4096 { return opaque(self); }
                let mut v = vec![];
                for i in 0..n {
                    match ecx.project_index(op, i).discard_err() {
                        Some(f) => v.push(self.cop(ecx, &f, depth + 1)),
                        None => return opaque(self),
                    }
                }
                format!("{{\"seq\":{}}}", arr(v))
            }
            ty::Str => {
                let Some(mp) = op.as_mplace_or_imm().left() else { return opaque(self) };
                match ecx.read_str(&mp).discard_err() {
                    Some(s) => { let s = s.to_string(); format!("{{\"str\":{}}}", esc(&s)) }
                    None => opaque(self),
                }
            }
            ty::Ref(..) | ty::RawPtr(..) => {
                if !t.is_ref() { return opaque(self); }
                match ecx.deref_pointer(op).discard_err() {
                    Some(mp) => {
                        if matches!(mp.layout.ty.kind(), ty::Dynamic(..)) { return opaque(self); }
                        let inner: OpTy<'tcx> = mp.into();
                        format!("{{\"ref\":{}}}", self.cop(ecx, &inner, depth + 1))
                    }
                    None => opaque(self),
                }
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                format!("{{\"fn\":{}}}", self.fnref(d, args))
            }
            ty::Closure(d, args) => {
                let _ = (d, args);
                format!("{{\"closure\":{}}}", self.ty(t))
            }
            _ => opaque(self),
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = match *t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                format!("{{\"fn\":{}}}", self.fnref(d, args))
            }
            _ => match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
                Ok(v) => self.cval(v, t),
                Err(_) => format!("{{\"opaque\":{}}}", esc(&format!("{:?}", c.const_))),
            },
        };
        // name of the constant, when it has one
        let name = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => format!(",\"name\":{}", esc(&self.path(u.def))),
            _ => String::new(),
        };
        format!("{{\"c\":{v},\"ty\":{ti}{name}}}")
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_u32()),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(t)),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(v))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            o => format!("{{\"rt\":{}}}", esc(&format!("{:?}", o))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{n}]", self.operand(o))
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => { let _ = k; format!("[\"ref\",true,{}]", self.place(p)) }
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{t}]", esc(&format!("{:?}", k)), self.operand(o))
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(self.env, t);
                        let t = self.ty(t);
                        format!("[\"adt\",{t},{},{}]", v.as_u32(), f.map(|x| x.as_u32() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{k},{}]", arr(v))
            }
            r => format!("[\"?\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn emit_fn(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
        let id = self.fns[&inst];
        let sm = tcx.sess.source_map();
        let lo = |sp: rustc_span::Span| {
            let l = sm.lookup_char_pos(sp.source_callsite().lo());
            (l.file.name.prefer_local_unconditionally().to_string(), l.line)
        };
        let (file, line) = lo(body.span);
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(b) => {
                            let p = self.place(&b.0);
                            let r = self.rvalue(&b.1);
                            let (_, l) = lo(s.source_info.span);
                            st.push(format!("[\"=\",{p},{r},{l}]"));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(place);
                            st.push(format!("[\"sd\",{p},{}]", variant_index.as_u32()));
                        }
                        StatementKind::Intrinsic(i) => match &**i {
                            NonDivergingIntrinsic::Assume(_) => {}
                            i => st.push(format!("[\"?\",{}]", esc(&format!("{:?}", i)))),
                        },
                        _ => {}
                    }
                }
            }
            let term = bb.terminator();
            let (_, l) = lo(term.source_info.span);
            let t = if bb.is_cleanup { "[\"unreachable\"]".to_string() } else {
                match &term.kind {
                    TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_u32())).collect();
                        format!("[\"switch\",{},{},{}]", self.operand(discr), arr(v), targets.otherwise().as_u32())
                    }
                    TerminatorKind::Return => "[\"return\"]".into(),
                    TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                    TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unreachable\"]".into(),
                    TerminatorKind::Drop { place, target, .. } => {
                        let p = self.place(place);
                        format!("[\"drop\",{p},{}]", target.as_u32())
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(func);
                        let a: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                        let d = self.place(destination);
                        let t = target.map(|t| t.as_u32() as i64).unwrap_or(-1);
                        format!("[\"call\",{f},{},{d},{t},{l}]", arr(a))
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match &**msg {
                            AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                            AssertKind::DivisionByZero(..) => "div0".to_string(),
                            AssertKind::RemainderByZero(..) => "rem0".to_string(),
                            _ => "other".to_string(),
                        };
                        format!("[\"assert\",{},{expected},{},{},{l}]", self.operand(cond), esc(&m), target.as_u32())
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                    TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                    k => format!("[\"?\",{}]", esc(&format!("{:?}", k))),
                }
            };
            blocks.push(format!("[{},{}]", arr(st), t));
        }
        let path = self.path(inst.def_id());
        let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(inst.def_id(), inst.args));
        let shim = !matches!(inst.def, InstanceKind::Item(_));
        let parent = tcx.opt_parent(inst.def_id()).map(|p| self.path(p)).unwrap_or_default();
        self.fn_out.push(format!(
            "{{\"id\":{id},\"path\":{},\"full\":{},\"local\":{},\"shim\":{shim},\"parent\":{},\"file\":{},\"line\":{line},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            esc(&path), esc(&full), inst.def_id().is_local(), esc(&parent), esc(&file), body.arg_count,
            body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1), arr(locals), arr(names), arr(blocks)
        ));
    }
}

struct Cb {
    out: String,
}
impl rdi::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let allow = std::env::var("DLP_ALLOW").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default()
            .lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty() && !s.starts_with('#')).collect();
        let mut d = Dump {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            ty_work: VecDeque::new(),
            fns: HashMap::new(),
            fn_work: VecDeque::new(),
            fn_out: vec![],
            allow,
            env: TypingEnv::fully_monomorphized(),
        };
        let mut roots = vec![];
        let mut consts = vec![];
        let mut items = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                    let vis = tcx.visibility(did).is_public();
                    items.push(format!("{{\"path\":{},\"kind\":\"fn\",\"generic\":{generic},\"pub\":{vis}}}", esc(&d.path(did))));
                    if !generic && tcx.is_mir_available(did) {
                        let inst = Instance::mono(tcx, did);
                        let id = d.func(inst);
                        roots.push(format!("[{},{id}]", esc(&d.path(did))));
                    } else if generic && tcx.is_mir_available(did) {
                        // borsh impls: instantiate the reader/writer parameter so that the derived bodies can be analysed
                        let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
                        let parent = tcx.parent(did);
                        let is_impl = kind == DefKind::AssocFn && matches!(tcx.def_kind(parent), DefKind::Impl { .. });
                        let tr = if is_impl { tcx.impl_opt_trait_ref(parent).map(|t| d.path(t.skip_binder().def_id)).unwrap_or_default() } else { String::new() };
                        let own = &tcx.generics_of(did).own_params;
                        if tr.contains("borsh") && (name == "serialize" || name == "deserialize_reader")
                            && !tcx.generics_of(parent).requires_monomorphization(tcx) && own.len() == 1 {
                            let bytes = rustc_middle::ty::Ty::new_slice(tcx, tcx.types.u8);
                            let re = tcx.lifetimes.re_erased;
                            let w = if name == "serialize" { rustc_middle::ty::Ty::new_mut_ref(tcx, re, bytes) } else { rustc_middle::ty::Ty::new_imm_ref(tcx, re, bytes) };
                            let args = tcx.mk_args(&[w.into()]);
                            let inst = Instance::new_raw(did, args);
                            let id = d.func(inst);
                            roots.push(format!("[{},{id}]", esc(&d.path(did))));
                        }
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                    if !generic {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                            let t = d.norm(t);
                            let ti = d.ty(t);
                            let j = d.cval(v, t);
                            consts.push(format!("{{\"path\":{},\"ty\":{ti},\"c\":{j}}}", esc(&d.path(did))));
                        }
                    }
                }
                DefKind::Struct | DefKind::Enum => {
                    let generic = tcx.generics_of(did).requires_monomorphization(tcx);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = if generic { -1 } else { let t = d.norm(t); d.ty(t) as i64 };
                    items.push(format!("{{\"path\":{},\"kind\":\"adt\",\"ty\":{ti}}}", esc(&d.path(did))));
                }
                _ => {}
            }
        }
        loop {
            if let Some(t) = d.ty_work.pop_front() {
                d.emit_ty(t);
                continue;
            }
            if let Some(i) = d.fn_work.pop_front() {
                if d.fn_out.len() > 20000 {
                    panic!("too many instances");
                }
                d.emit_fn(i);
                continue;
            }
            break;
        }
        let tys: Vec<String> = d.ty_out.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
        let feats: Vec<String> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature").map(|(_, v)| esc(v.map(|v| v.to_string()).unwrap_or_default().as_str())).collect();
        let j = format!(
            "{{\"crate\":{},\"features\":{},\"roots\":{},\"consts\":{},\"items\":{},\"types\":{},\"fns\":{}}}",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()), arr(feats), arr(roots), arr(consts), arr(items), arr(tys), arr(d.fn_out)
        );
        std::fs::write(&self.out, j).unwrap();
        Compilation::Continue
    }
}
struct Nop;
impl rdi::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args[0] = "rustc".into();
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if !args.iter().any(|a| a == "--sysroot") {
        args.push("--sysroot".into());
        args.push(env!("DLP_SYSROOT").into());
    }
    let out = std::env::var("DLP_OUT").unwrap_or_default();
    if krate == "dlp" && !out.is_empty() {
        args.extend(["-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off", "-Zub-checks=no"].map(String::from));
        rdi::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rdi::compiler_entrypoint(&args, &mut Nop);
    }
    let _ = VariantIdx::from_u32(0);
}
