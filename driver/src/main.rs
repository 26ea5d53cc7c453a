// Dumps, for one crate under analysis, every function body in the compiler's
// MIR (after type check, before borrowck-time drop elaboration), with resolved callees, evaluated
// constants, type definitions and export attributes, as one JSON file.
// Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    
    seen_adt: HashSet<DefId>,
    queue: Vec<DefId>,
    env: ty::TypingEnv<'tcx>,
    params: bool,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(d.krate), p)
        } else {
            p
        }
    }
    fn id(&self, d: DefId) -> String {
        format!("{}:{}", self.tcx.crate_name(d.krate), d.index.as_u32())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let mut w = t.walk();
        while let Some(a) = w.next() {
            if let Some(t) = a.as_type() {
                if let ty::Adt(d, _) = t.kind() {
                    if self.seen_adt.insert(d.did()) {
                        self.queue.push(d.did());
                    }
                }
            }
        }
        with_no_trimmed_paths!(t.to_string())
    }
    fn line(&self, s: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        (
            l.file
                .name
                .display(rustc_span::RemapPathScopeComponents::DIAGNOSTICS)
                .to_string(),
            l.line,
        )
    }
    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() || d.is_struct() || d.is_union() {
                                Some(d.variant(vi).fields[f].name.to_string())
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    match name {
                        Some(n) => {
                            let an = match pty.ty.kind() {
                                ty::Adt(d, _) => self.path(d.did()),
                                _ => String::new(),
                            };
                            let _ = write!(o, "[\"f\",{},{},{}]", f.as_u32(), esc(&n), esc(&an));
                        }
                        None => {
                            let _ = write!(o, "[\"f\",{},null]", f.as_u32());
                        }
                    }
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match n {
                        Some(n) => esc(&n.to_string()),
                        None => match pty.ty.kind() {
                            ty::Adt(d, _) => esc(&d.variant(v).name.to_string()),
                            _ => "null".into(),
                        },
                    };
                    let _ = write!(o, "[\"d\",{},{}]", v.as_u32(), name);
                }
                _ => o.push_str("[\"?\"]"),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push_str("]]");
        o
    }
    fn place_ty(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> String {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        self.ty(t)
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(*p, body)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(*p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            _ => "[\"k\",{\"ty\":\"bool\",\"int\":0}]".to_string(),
        }
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"fn\":{},\"id\":{}", esc(&self.path(d)), esc(&self.id(d)));
        let mut al = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                al.push(esc(&self.ty(t)));
            }
        }
        let _ = write!(o, ",\"args\":[{}]", al.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let nargs = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        if !nargs.has_escaping_bound_vars() {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, nargs) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let mut rl = vec![];
                for a in inst.args.iter() {
                    if let Some(t) = a.as_type() {
                        rl.push(esc(&self.ty(t)));
                    }
                }
                let _ = write!(
                    o,
                    ",\"res\":{},\"resid\":{},\"rk\":\"{}\",\"rargs\":[{}]",
                    esc(&self.path(rd)),
                    esc(&self.id(rd)),
                    kind,
                    rl.join(",")
                );
                if rd.is_local() {
                    o.push_str(",\"loc\":1");
                }
            }
        }
        o.push('}');
        o
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let a = self.ty(t);
            let f = self.fndef(*d, args.no_bound_vars().expect("fndef args"));
            return format!("{{\"ty\":{},\"fnd\":{}}}", esc(&a), f);
        }
        let tys = self.ty(t);
        let mut o = format!("{{\"ty\":{}", esc(&tys));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{},\"defid\":{}", esc(&self.path(u.def)), esc(&self.id(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"prom\":{}", p.as_u32());
                o.push('}');
                return o;
            }
        }
        let can_eval = match c.const_ {
            Const::Unevaluated(u, _) => !u.args.has_param(),
            _ => !c.const_.has_param(),
        };
        if can_eval {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, self.env) {
                let v: String = match t.kind() {
                    ty::Int(it) => {
                        let _ = it;
                        si.to_int(si.size()).to_string()
                    }
                    _ => si.to_uint(si.size()).to_string(),
                };
                let _ = write!(o, ",\"int\":{}", v);
            } else if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Ok(val) = c.const_.eval(tcx, self.env, c.span) {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            if b.len() < 4096 {
                                let s = String::from_utf8_lossy(b).to_string();
                                let _ = write!(o, ",\"str\":{}", esc(&s));
                            } else {
                                let _ = write!(o, ",\"strlen\":{}", b.len());
                            }
                        }
                    }
                } else if let ty::Array(e, _) = inner.kind() {
                    if *e == tcx.types.u8 {
                        // byte-string literal
                        let s = with_no_trimmed_paths!(format!("{}", c.const_));
                        if s.len() < 4096 {
                            let _ = write!(o, ",\"bstr\":{}", esc(&s));
                        }
                    }
                }
            } else {
                let s = with_no_trimmed_paths!(format!("{}", c.const_));
                if s.len() < 400 {
                    let _ = write!(o, ",\"disp\":{}", esc(&s));
                }
            }
        }
        if let Const::Val(ConstValue::Scalar(s), _) = c.const_ {
            if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                if let Some(ga) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                    if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = ga {
                        let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
                    }
                }
            }
        }
        o.push('}');
        o
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(op, body)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(op, body), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    BorrowKind::Fake(_) => "fake",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(*p, body))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(*p, body)),
            Rvalue::Cast(k, op, t) => {
                let ks = format!("{:?}", k);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(op, body), esc(&t))
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                format!(
                    "[\"bin\",\"{:?}\",{},{},{}]",
                    b,
                    self.operand(&ops.0, body),
                    self.operand(&ops.1, body),
                    esc(&t)
                )
            }
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(op, body)),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(*p, body);
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                let a = match pt.kind() {
                    ty::Adt(d, _) => esc(&self.path(d.did())),
                    _ => "null".into(),
                };
                format!("[\"discr\",{},{},{}]", self.place(*p, body), esc(&t), a)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(o, body));
                }
                let v = v.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"arr\",[{}]]", v),
                    AggregateKind::Tuple => format!("[\"tup\",[{}]]", v),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, args);
                        self.ty(t);
                        let var = def.variant(*vi);
                        let names: Vec<String> =
                            var.fields.iter().map(|f| esc(&f.name.to_string())).collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],[{}]]",
                            esc(&self.path(*d)),
                            vi.as_u32(),
                            esc(&var.name.to_string()),
                            names.join(","),
                            v
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"clo\",{},{},[{}]]", esc(&self.id(*d)), esc(&self.path(*d)), v)
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"cor\",{},{},[{}]]", esc(&self.id(*d)), esc(&self.path(*d)), v)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"tup\",[{}]]", v),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(*p, body)),
            Rvalue::WrapUnsafeBinder(op, _) => format!("[\"use\",{}]", self.operand(op, body)),
            Rvalue::Reborrow(_, m, p) => format!(
                "[\"ref\",\"{}\",{}]",
                if m.is_mut() { "mut" } else { "shr" },
                self.place(*p, body)
            ),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", b.arg_count);
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            o.push_str(&esc(&t));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut seen = HashSet::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_u32(), esc(&v.name.to_string()));
                }
            }
        }
        o.push_str("},\"upvars\":{");
        let mut first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.local.as_u32() == 1 && !p.projection.is_empty() {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            if !first {
                                o.push(',');
                            }
                            first = false;
                            let _ = write!(o, "\"{}\":{}", f.as_u32(), esc(&v.name.to_string()));
                            break;
                        }
                    }
                }
            }
        }
        o.push_str("},\"bbs\":[");
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("[[");
            let mut first = true;
            for s in &bb.statements {
                let ln = self.line(s.source_info.span).1;
                let txt = match &s.kind {
                    StatementKind::Assign(a) => {
                        format!("[\"=\",{},{},{}]", self.place(a.0, b), self.rvalue(&a.1, b), ln)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(**place, b), variant_index.as_u32())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],");
            let t = bb.terminator();
            let ln = self.line(t.source_info.span).1;
            let txt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[{},{}]", val, bb.as_u32()));
                    }
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!(
                        "[\"sw\",{},[{}],{},{},{}]",
                        self.operand(discr, b),
                        v.join(","),
                        targets.otherwise().as_u32(),
                        ln,
                        esc(&dt)
                    )
                }
                TerminatorKind::Return => format!("[\"ret\",{}]", ln),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = self.place_ty(*place, b);
                    format!("[\"drop\",{},{},{},{}]", self.place(*place, b), target.as_u32(), esc(&pt), ln)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let mut v = vec![];
                    let mut tys = vec![];
                    for a in args.iter() {
                        v.push(self.operand(&a.node, b));
                        let t = a.node.ty(&b.local_decls, self.tcx);
                        tys.push(esc(&self.ty(t)));
                    }
                    let f = self.operand(func, b);
                    let d = self.place(*destination, b);
                    let dt = self.place_ty(*destination, b);
                    let tgt = target.map(|t| t.as_u32().to_string()).unwrap_or("null".into());
                    let (fl, ln2) = self.line(*fn_span);
                    let _ = fl;
                    format!(
                        "[\"call\",{},[{}],{},{},{},[{}],{}]",
                        f,
                        v.join(","),
                        d,
                        tgt,
                        ln2,
                        tys.join(","),
                        esc(&dt)
                    )
                }
                TerminatorKind::Assert { target, .. } => format!("[\"assert\",{}]", target.as_u32()),
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", resume.as_u32(), self.place(*resume_arg, b), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"unr\"]".to_string(),
            };
            o.push_str(&txt);
            o.push(']');
        }
        o.push(']');
        o
    }
}

struct Cb {
    out: String,
}

fn attr_export(tcx: TyCtxt<'_>, d: LocalDefId) -> Option<String> {
    let k = tcx.def_kind(d);
    if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
        return None;
    }
    let a = tcx.codegen_fn_attrs(d);
    a.symbol_name.map(|s| s.to_string())
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            if tcx.type_of(def).instantiate_identity().skip_norm_wip().references_error() {
                continue;
            }
            let (b, p) = tcx.mir_promoted(def);
            bodies.push((def, b.borrow().clone(), p.borrow().clone()));
        }
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver::Compilation::Continue;
        }
        let mut d = Dump {
            tcx,
            seen_adt: HashSet::new(),
            queue: vec![],
            env: ty::TypingEnv::fully_monomorphized(),
            params: false,
        };
        let mut out = String::new();
        let kr = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let _ = write!(out, "{{\"crate\":{},\"fns\":[\n", esc(&kr));
        let mut first = true;
        for (def, b, proms) in &bodies {
            let did = def.to_def_id();
            let root = tcx.typeck_root_def_id(did);
            d.env = ty::TypingEnv::post_analysis(tcx, root);
            d.params = tcx.generics_of(root).requires_monomorphization(tcx);
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let (file, line) = d.line(b.span);
            let endl = {
                let sm = tcx.sess.source_map();
                sm.lookup_char_pos(b.span.source_callsite().hi()).line
            };
            let kind = format!("{:?}", tcx.def_kind(did));
            let _ = write!(
                out,
                "{{\"id\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{},\"end\":{},\"exp\":{}",
                esc(&d.id(did)),
                esc(&d.path(did)),
                esc(&kind),
                esc(&file),
                line,
                endl,
                b.span.from_expansion()
            );
            let par = tcx.parent(did);
            let _ = write!(out, ",\"parent\":{}", esc(&d.path(par)));
            if let Some(e) = attr_export(tcx, *def) {
                let _ = write!(out, ",\"export\":{}", esc(&e));
            }
            if d.params {
                out.push_str(",\"generic\":1");
            }
            if tcx.is_coroutine(did) {
                out.push_str(",\"coroutine\":1");
            }
            if tcx.def_kind(did) == DefKind::Const || tcx.def_kind(did) == DefKind::Fn {}
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(did);
                let _ = write!(out, ",\"pub\":{}", vis.is_public() as u8);
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let st = d.ty(st);
                    let _ = write!(out, ",\"self_ty\":{}", esc(&st));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(out, ",\"impl_trait\":{}", esc(&d.path(tr.def_id)));
                    }
                }
            }
            out.push(',');
            out.push_str(&d.body(b));
            if !proms.is_empty() {
                out.push_str(",\"proms\":[");
                for (i, p) in proms.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('{');
                    out.push_str(&d.body(p));
                    out.push('}');
                }
                out.push(']');
            }
            out.push('}');
        }
        out.push_str("],\n\"adts\":{\n");
        // local ADTs, even when never mentioned in a body
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                d.ty(t);
            }
        }
        let mut done: BTreeMap<String, String> = BTreeMap::new();
        while let Some(a) = d.queue.pop() {
            let def = tcx.adt_def(a);
            let mut o = format!(
                "{{\"kind\":\"{}\",\"local\":{},\"vars\":[",
                if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
                a.is_local()
            );
            if a.is_local() {
                let (f, l) = d.line(tcx.def_span(a));
                o = format!("{{\"file\":{},\"line\":{},{}", esc(&f), l, &o[1..]);
            }
            let discrs: Vec<String> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
            } else {
                vec!["0".into()]
            };
            for (i, v) in def.variants().iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(o, "[{},{},[", esc(&v.name.to_string()), discrs.get(i).cloned().unwrap_or("0".into()));
                for (j, f) in v.fields.iter().enumerate() {
                    if j > 0 {
                        o.push(',');
                    }
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    // only follow field types of local types, to bound the closure
                    let fts = if a.is_local() {
                        d.ty(ft)
                    } else {
                        with_no_trimmed_paths!(ft.to_string())
                    };
                    let _ = write!(o, "[{},{}]", esc(&f.name.to_string()), esc(&fts));
                }
                o.push_str("]]");
            }
            o.push_str("]}");
            done.insert(d.path(a), o);
        }
        let mut first = true;
        for (k, v) in &done {
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let _ = write!(out, "{}:{}", esc(k), v);
        }
        out.push_str("}}\n");
        let fname = format!("{}/{}.json", self.out, kr);
        let tmp = format!("{}.tmp{}", fname, std::process::id());
        let mut f = std::fs::File::create(&tmp).expect("create dump");
        f.write_all(out.as_bytes()).expect("write dump");
        drop(f);
        std::fs::rename(&tmp, &fname).expect("rename dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let info = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    let build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    if out.is_empty() || info || build_script {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_interface_run(&args, &mut N);
        return;
    }
    rustc_interface_run(&args, &mut Cb { out });
}

fn rustc_interface_run(args: &[String], cb: &mut (dyn rustc_driver::Callbacks + Send)) {
    rustc_driver::compiler_entrypoint(args, cb);
}
