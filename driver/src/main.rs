//! `mirdump`: a rustc driver that writes the resolved program of one crate as JSON.
//!
//! For every function of the target crate (and for every function of other crates that the
//! target crate reaches and that `descend` allows) it writes the monomorphised MIR: locals with
//! types, statements, terminators, with all callees resolved through the trait system.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};

// ---------------------------------------------------------------- JSON helpers

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

// ---------------------------------------------------------------- the dumper

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    inst_json: Vec<Option<String>>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    descend: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        // Full path with the crate name, whatever the crate.
        let p = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        ));
        p
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
        ))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = esc(&self.tystr(t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(_) => "\"k\":\"int\"".to_string(),
            ty::Uint(_) => "\"k\":\"uint\"".to_string(),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, inner, m) => {
                format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(inner))
            }
            ty::RawPtr(inner, m) => {
                format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(inner))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", list(v))
            }
            ty::Array(inner, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(inner), n)
            }
            ty::Slice(inner) => format!("\"k\":\"slice\",\"t\":{}", self.ty(inner)),
            ty::Adt(def, args) => {
                let path = esc(&self.path(def.did()));
                let local = def.did().is_local();
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() {
                        def.discriminant_for_variant(self.tcx, vi).val.to_string()
                    } else {
                        "0".to_string()
                    };
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            format!("[{},{}]", esc(f.name.as_str()), self.ty(ft))
                        })
                        .collect();
                    vs.push(format!(
                        "{{\"name\":{},\"d\":{},\"fs\":{}}}",
                        esc(v.name.as_str()),
                        d,
                        list(fs)
                    ));
                }
                format!(
                    "\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"local\":{},\"args\":{},\"vs\":{}",
                    kind,
                    path,
                    local,
                    list(a),
                    list(vs)
                )
            }
            ty::Closure(did, args) => {
                let up: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"up\":{}", esc(&self.path(did)), list(up))
            }
            ty::FnDef(did, _) => format!("\"k\":\"fndef\",\"path\":{}", esc(&self.path(did))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_json[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }

    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        use rustc_middle::ty::TypeVisitableExt;
        let env = if inst.args.has_param() { env } else { TypingEnv::fully_monomorphized() };
        if let Some(&i) = self.insts.get(&(inst, env)) {
            return i;
        }
        let i = self.inst_json.len();
        self.insts.insert((inst, env), i);
        self.inst_json.push(None);
        self.queue.push_back((i, inst, env));
        i
    }

    fn allow_body(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.path(d);
        let p = p.trim_start_matches('<');
        self.descend.iter().any(|x| p.starts_with(x.as_str()))
    }

    fn fn_json(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(did);
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let trait_ = tcx.trait_of_assoc(did).map(|t| self.path(t));
        let mut res_id = "null".to_string();
        let mut res_path = "null".to_string();
        let mut res_kind = "null".to_string();
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let args2 = tcx
                .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args))
                .unwrap_or(args);
            if let Ok(Some(r)) = Instance::try_resolve(tcx, env, did, args2) {
                let rd = r.def_id();
                res_path = esc(&self.path(rd));
                res_kind = match r.def {
                    InstanceKind::Item(_) => "\"item\"",
                    InstanceKind::Intrinsic(_) => "\"intrinsic\"",
                    InstanceKind::Virtual(..) => "\"virtual\"",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "\"closure_once\"",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "\"fnptr\"",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "\"cloneshim\"",
                    _ => "\"shim\"",
                }
                .to_string();
                if matches!(r.def, InstanceKind::Item(_)) {
                    res_id = self.inst(r, env).to_string();
                }
            }
        }
        format!(
            "{{\"path\":{},\"name\":{},\"targs\":{},\"trait\":{},\"rpath\":{},\"rk\":{},\"id\":{}}}",
            esc(&path),
            esc(&name),
            list(targs),
            trait_.map(|t| esc(&t)).unwrap_or("null".into()),
            res_path,
            res_kind,
            res_id
        )
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let f = self.fn_json(d, a.no_bound_vars().unwrap_or(a.skip_binder()), env);
            return format!("{{\"t\":{},\"fn\":{}}}", tid, f);
        }
        if depth > 6 {
            return format!("{{\"t\":{},\"op\":\"deep\"}}", tid);
        }
        match *t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() .or_else(|| {
                    // an indirect scalar
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) else { return None };
                        let size = tcx.layout_of(env.as_query_input(t)).ok()?.size;
                        let r = rustc_middle::mir::interpret::alloc_range(offset, size);
                        let s = a.inner().read_scalar(&tcx, r, false).ok()?;
                        s.try_to_scalar_int().ok()
                    } else { None }
                }) {
                    let sz = s.size();
                    let bits = s.to_bits(sz);
                    return match *t.kind() {
                        ty::Bool => format!("{{\"t\":{},\"b\":{}}}", tid, bits != 0),
                        ty::Int(_) => {
                            format!("{{\"t\":{},\"i\":\"{}\"}}", tid, s.to_int(sz))
                        }
                        ty::Uint(_) | ty::Char => format!("{{\"t\":{},\"i\":\"{}\"}}", tid, bits),
                        ty::Float(_) => {
                            let f = if sz.bytes() == 8 {
                                f64::from_bits(bits as u64)
                            } else {
                                f32::from_bits(bits as u32) as f64
                            };
                            format!("{{\"t\":{},\"f\":\"{:?}\"}}", tid, f)
                        }
                        _ => unreachable!(),
                    };
                }
                format!("{{\"t\":{},\"op\":\"scalar\"}}", tid)
            }
            ty::Ref(_, inner, _) => {
                match v {
                    ConstValue::Slice { .. } => {
                        if inner.is_str() {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                let s = String::from_utf8_lossy(b).to_string();
                                return format!("{{\"t\":{},\"str\":{}}}", tid, esc(&s));
                            }
                        }
                        format!("{{\"t\":{},\"op\":\"slice\"}}", tid)
                    }
                    _ => {
                        let sc = match v {
                            ConstValue::Scalar(s) => Some(s),
                            ConstValue::Indirect { alloc_id, offset } => {
                                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                    let r = rustc_middle::mir::interpret::alloc_range(
                                        offset,
                                        tcx.data_layout.pointer_size(),
                                    );
                                    a.inner().read_scalar(&tcx, r, true).ok()
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        };
                        if let Some(Scalar::Ptr(p, _)) = sc {
                            let (prov, off) = p.into_raw_parts();
                            let aid = prov.alloc_id();
                            if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                                if inner.is_sized(tcx, env) {
                                    let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                                    let j = self.const_value(iv, inner, env, depth + 1);
                                    return format!("{{\"t\":{},\"ref\":{}}}", tid, j);
                                }
                            }
                        }
                        format!("{{\"t\":{},\"op\":\"ref\"}}", tid)
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() { return format!("{{\"t\":{},\"op\":\"union\"}}", tid); }
                }
                if let ty::Array(_, _) = t.kind() {
                    if matches!(v, ConstValue::Scalar(_)) { return format!("{{\"t\":{},\"op\":\"arr\"}}", tid); }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let var = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                    let fs: Vec<String> = d
                        .fields
                        .iter()
                        .map(|&(fv, ft)| self.const_value(fv, ft, env, depth + 1))
                        .collect();
                    return format!("{{\"t\":{},\"var\":{},\"agg\":{}}}", tid, var, list(fs));
                }
                format!("{{\"t\":{},\"op\":\"agg\"}}", tid)
            }
            _ => match v {
                ConstValue::ZeroSized => format!("{{\"t\":{},\"z\":1}}", tid),
                _ => format!("{{\"t\":{},\"op\":\"other\"}}", tid),
            },
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let f = self.fn_json(d, a.no_bound_vars().unwrap_or(a.skip_binder()), env);
            return format!("{{\"t\":{},\"fn\":{}}}", tid, f);
        }
        // name of a named constant, for reports
        let name = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
            _ => None,
        };
        let j = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                let mut j = self.const_value(v, t, env, 0);
                if let Some(n) = name {
                    j.pop();
                    let _ = write!(j, ",\"name\":{}}}", esc(&n));
                }
                j
            }
            Err(_) => {
                let n = name.unwrap_or_else(|| format!("{}", c.const_));
                format!("{{\"t\":{},\"op\":{}}}", tid, esc(&n))
            }
        };
        j
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                _ => "[\"cast\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, env)),
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                format!("[\"k\",{{\"t\":{},\"b\":false}}]", t)
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, env),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(*p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", esc(&format!("raw{:?}", k)), self.place(*p)),
            Rvalue::Cast(k, o, t) => {
                let k2 = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&k2), self.operand(o, env), self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(&ab.0, env),
                self.operand(&ab.1, env)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(a, env))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x, env)).collect();
                let k2 = match **k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = self
                            .tcx
                            .type_of(d)
                            .instantiate(self.tcx, args)
                            .skip_norm_wip();
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.as_usize(),
                            af.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let r = Instance::new_raw(d, args);
                        let id = self.inst(r, env);
                        format!("[\"closure\",{},{}]", id, esc(&self.path(d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k2, list(o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let short = name.find("/src/").map(|i| name[i + 1..].to_string()).unwrap_or(name);
        format!("{}:{}", short, lo.line)
    }

    fn body(&mut self, id: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = self.path(did);
        let key = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(
                rustc_middle::ty::print::with_no_trimmed_paths!(
                    tcx.def_path_str_with_args(did, inst.args)
                )
            )
        );
        let targs: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let parent = tcx
            .opt_parent(did)
            .map(|p| esc(&self.path(p)))
            .unwrap_or("null".into());
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let mut self_ty = "null".to_string();
        let mut trait_ = "null".to_string();
        if let Some(p) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                self_ty = esc(&self.tystr(tcx.type_of(p).instantiate_identity().skip_norm_wip()));
                if let Some(t) = tcx.impl_opt_trait_ref(p) {
                    trait_ = esc(&self.path(t.skip_binder().def_id));
                }
            }
        }
        let vis = if did.is_local() && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let ev = tcx.effective_visibilities(());
            ev.is_reachable(did.expect_local())
        } else {
            false
        };
        let head = format!(
            "\"id\":{},\"key\":{},\"path\":{},\"name\":{},\"targs\":{},\"parent\":{},\"self\":{},\"trait\":{},\"local\":{},\"pub\":{},\"closure\":{},\"span\":{}",
            id,
            esc(&key),
            esc(&path),
            esc(&name),
            list(targs),
            parent,
            self_ty,
            trait_,
            did.is_local(),
            vis,
            tcx.is_closure_like(did),
            esc(&self.span(tcx.def_span(did)))
        );
        let has_body = matches!(inst.def, InstanceKind::Item(_))
            && self.allow_body(did)
            && tcx.is_mir_available(did)
            && !tcx.is_foreign_item(did)
            && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
        if !has_body {
            return format!("{{{},\"body\":null}}", head);
        }
        let body0 = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, body0.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return format!("{{{},\"body\":null}}", head),
        };
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pj));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let sp = self.span(s.source_info.span);
                        let (p, r) = &**b;
                        let pj = self.place(*p);
                        let rj = self.rvalue(r, env);
                        ss.push(format!("[\"=\",{},{},{}]", pj, rj, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(**place);
                        ss.push(format!("[\"sd\",{},{}]", pj, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if let ty::Int(it) = dt.kind() {
                                let bits = it.bit_width().unwrap_or(64);
                                let sh = 128 - bits;
                                (((v << sh) as i128) >> sh).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", esc(&vs), b.as_usize())
                        })
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, env),
                        list(v),
                        targets.otherwise().as_usize(),
                        self.ty(dt)
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"unwind\"]".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(*place), target.as_usize(), self.ty(pt))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        self.operand(func, env),
                        list(a),
                        self.place(*destination),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{},{},{}]",
                    self.operand(cond, env),
                    expected,
                    target.as_usize(),
                    esc(&format!("{:?}", msg).split('(').next().unwrap_or("").to_string())
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"other\"]".to_string(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"sp\":{},\"cleanup\":{}}}",
                list(ss),
                t,
                sp,
                bb.is_cleanup
            ));
        }
        format!(
            "{{{},\"body\":{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}}}",
            head,
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            list(locals),
            list(names),
            list(blocks)
        )
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let descend = std::env::var("MIRDUMP_DESCEND").unwrap_or_default();
        let mut d = Dumper {
            tcx,
            types: HashMap::new(),
            type_json: vec![],
            insts: HashMap::new(),
            inst_json: vec![],
            queue: VecDeque::new(),
            descend: descend.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        };
        let mut seen = HashSet::new();
        let mut n_local = 0;
        for ldid in tcx.mir_keys(()) {
            let did = ldid.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if !seen.insert(did) {
                continue;
            }
            n_local += 1;
            let generic = tcx.generics_of(did).requires_monomorphization(tcx);
            if generic {
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let args = tcx.erase_and_anonymize_regions(args);
                let env = TypingEnv::post_analysis(tcx, did);
                d.inst(Instance::new_raw(did, args), env);
            } else {
                let inst = Instance::mono(tcx, did);
                d.inst(inst, TypingEnv::fully_monomorphized());
            }
        }
        while let Some((id, inst, env)) = d.queue.pop_front() {
            let j = d.body(id, inst, env);
            d.inst_json[id] = Some(j);
        }
        // Items of interest for the ownership rules: statics, impls, unsafe code.
        let mut items = vec![];
        for ldid in tcx.hir_crate_items(()).definitions() {
            let did = ldid.to_def_id();
            let k = tcx.def_kind(did);
            match k {
                DefKind::Static { mutability, .. } => items.push(format!(
                    "{{\"k\":\"static\",\"path\":{},\"mut\":{},\"ty\":{}}}",
                    esc(&d.path(did)),
                    mutability.is_mut(),
                    esc(&d.tystr(tcx.type_of(did).instantiate_identity().skip_norm_wip()))
                )),
                DefKind::Impl { of_trait } => {
                    let t = if of_trait {
                        tcx.impl_opt_trait_ref(did)
                            .map(|t| esc(&d.path(t.skip_binder().def_id)))
                            .unwrap_or("null".into())
                    } else {
                        "null".into()
                    };
                    let derived = tcx.is_automatically_derived(did);
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    items.push(format!(
                        "{{\"k\":\"impl\",\"path\":{},\"trait\":{},\"derived\":{},\"self\":{},\"ty\":{}}}",
                        esc(&d.path(did)),
                        t,
                        derived,
                        esc(&d.tystr(ty)),
                        d.ty(ty)
                    ));
                }
                DefKind::Struct | DefKind::Enum => {
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    items.push(format!("{{\"k\":\"type\",\"path\":{},\"ty\":{}}}", esc(&d.path(did)), d.ty(ty)));
                }
                _ => {}
            }
        }
        let mut out = String::new();
        out.push_str("{\"crate\":");
        out.push_str(&esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()));
        let _ = write!(out, ",\"n_local\":{}", n_local);
        out.push_str(",\"types\":");
        out.push_str(&list(d.type_json.iter().cloned()));
        out.push_str(",\"items\":");
        out.push_str(&list(items));
        out.push_str(",\"insts\":[\n");
        let v: Vec<String> = d.inst_json.iter().map(|x| x.clone().unwrap()).collect();
        out.push_str(&v.join(",\n"));
        out.push_str("\n]}\n");
        std::fs::write(&self.out, out).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER: argv[1] is the path of rustc.
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_wrapper = args.len() > 1 && args[1].ends_with("rustc");
    if is_wrapper {
        let crate_name = args
            .iter()
            .position(|a| a == "--crate-name")
            .and_then(|i| args.get(i + 1))
            .cloned()
            .unwrap_or_default();
        if crate_name != target || target.is_empty() {
            let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
            std::process::exit(st.code().unwrap_or(1));
        }
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=off".into());
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
