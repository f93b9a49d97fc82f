//! MIR dumper: run as RUSTC_WORKSPACE_WRAPPER. For the target crate it writes a
//! JSON description of every body (resolved callees, typed places), every ADT,
//! every trait impl, constants/statics and unsafe uses to $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::fmt::Write as _;

struct W(String);
impl W {
    fn s(&mut self, v: &str) {
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\t' => self.0.push_str("\\t"),
                '\r' => self.0.push_str("\\r"),
                c if (c as u32) < 0x20 => { let _ = write!(self.0, "\\u{:04x}", c as u32); }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn r(&mut self, v: &str) { self.0.push_str(v); }
}

struct D<'tcx> { tcx: TyCtxt<'tcx>, w: W, first_body: bool }

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)));
    p
}
fn tystr(t: Ty<'_>) -> String {
    ty::print::with_no_trimmed_paths!(format!("{}", t))
}

impl<'tcx> D<'tcx> {
    fn span(&mut self, sp: Span) {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp0.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        let exp = if sp.from_expansion() { 
            let d = sp.ctxt().outer_expn_data();
            match d.kind { rustc_span::ExpnKind::Macro(_, n) => n.to_string(), rustc_span::ExpnKind::Desugaring(k) => format!("desugar:{:?}", k), _ => "exp".into() }
        } else { String::new() };
        self.w.r("[");
        self.w.s(&f);
        let _ = write!(self.w.0, ",{},", lo.line);
        self.w.s(&exp);
        self.w.r("]");
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) {
        let tcx = self.tcx;
        let _ = write!(self.w.0, "{{\"l\":{},\"p\":[", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut first = true;
        for el in p.projection.iter() {
            if !first { self.w.r(","); }
            first = false;
            match el {
                ProjectionElem::Deref => self.w.r("[\"*\"]"),
                ProjectionElem::Field(f, fty) => {
                    let t = pty.ty;
                    let mut name = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    if let ty::Adt(adt, _) = t.kind() {
                        let v = match pty.variant_index { Some(v) => v, None => rustc_abi::FIRST_VARIANT };
                        if !adt.is_enum() || pty.variant_index.is_some() {
                            name = adt.variant(v).fields[f].name.to_string();
                        }
                        owner = path(tcx, adt.did());
                    } else if let ty::Closure(..) = t.kind() { owner = "closure".into(); }
                    self.w.r("[\"f\",");
                    self.w.s(&name);
                    self.w.r(",");
                    self.w.s(&owner);
                    self.w.r(",");
                    self.w.s(&tystr(fty));
                    self.w.r("]");
                }
                ProjectionElem::Index(l) => { let _ = write!(self.w.0, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(self.w.0, "[\"c\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(self.w.0, "[\"s\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, vi) => {
                    let n = if let ty::Adt(adt, _) = pty.ty.kind() { adt.variant(vi).name.to_string() } else { format!("{}", vi.as_usize()) };
                    self.w.r("[\"d\",");
                    self.w.s(&n);
                    self.w.r("]");
                }
                _ => self.w.r("[\"o\"]"),
            }
            pty = pty.projection_ty(tcx, el);
        }
        self.w.r("]}");
    }
    fn fn_ref(&mut self, body: &Body<'tcx>, def: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        self.w.r("\"path\":");
        let p = path(tcx, def);
        self.w.s(&p);
        self.w.r(",\"gargs\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first { self.w.r(","); } first = false;
                self.w.s(&tystr(t));
            } else if let Some(c) = a.as_const() {
                if !first { self.w.r(","); } first = false;
                let s = format!("{}", c);
                self.w.s(&s);
            }
        }
        self.w.r("]");
        // trait method: record trait + try to resolve
        if let Some(tr) = tcx.trait_of_assoc(def) {
            self.w.r(",\"trait\":");
            let p = path(tcx, tr);
            self.w.s(&p);
            let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
            let args2 = tcx.erase_and_anonymize_regions(args);
            if !args2.has_infer() {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, def, args2) {
                    if inst.def_id() != def {
                        self.w.r(",\"resolved\":");
                        let p = path(tcx, inst.def_id());
                        self.w.s(&p);
                    }
                }
            }
        }
    }
    fn constant(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) {
        let tcx = self.tcx;
        let t = c.const_.ty();
        self.w.r("{\"k\":\"const\",\"ty\":");
        self.w.s(&tystr(t));
        match t.kind() {
            ty::FnDef(d, args) => {
                self.w.r(",\"fn\":{");
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                self.fn_ref(body, *d, args);
                self.w.r("}");
            }
            _ => {
                let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
                if let Const::Unevaluated(u, _) = c.const_ {
                    self.w.r(",\"def\":");
                    let p = path(tcx, u.def);
                    self.w.s(&p);
                    if let Some(pr) = u.promoted { let _ = write!(self.w.0, ",\"promoted\":{}", pr.as_usize()); }
                }
                let generic = c.const_.has_param();
                if !generic && (t.is_integral() || t.is_bool() || t.is_char()) {
                    if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                        let size = tcx.layout_of(env.as_query_input(t)).map(|l| l.size).unwrap();
                        let v: String = if t.is_signed() {
                            format!("{}", size.sign_extend(b))
                        } else { format!("{}", b) };
                        self.w.r(",\"v\":");
                        self.w.r(&v);
                    }
                }
                let s = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
                self.w.r(",\"s\":");
                self.w.s(&s);
            }
        }
        self.w.r("}");
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => { self.w.r("{\"k\":\"copy\",\"pl\":"); self.place(body, p); self.w.r("}"); }
            Operand::Move(p) => { self.w.r("{\"k\":\"move\",\"pl\":"); self.place(body, p); self.w.r("}"); }
            Operand::Constant(c) => self.constant(body, c),
            _ => { self.w.r("{\"k\":\"rtc\"}"); }
        }
    }
    fn ops<'a, I: Iterator<Item = &'a Operand<'tcx>>>(&mut self, body: &Body<'tcx>, it: I) where 'tcx: 'a {
        self.w.r("[");
        let mut first = true;
        for o in it { if !first { self.w.r(","); } first = false; self.operand(body, o); }
        self.w.r("]");
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => { self.w.r("{\"k\":\"use\",\"o\":"); self.operand(body, o); }
            Rvalue::Repeat(o, n) => { self.w.r("{\"k\":\"repeat\",\"o\":"); self.operand(body, o); self.w.r(",\"n\":"); let s = format!("{}", n); self.w.s(&s); }
            Rvalue::Ref(_, k, p) => {
                self.w.r("{\"k\":\"ref\",\"mut\":");
                self.w.r(if matches!(k, BorrowKind::Mut { .. }) { "true" } else { "false" });
                self.w.r(",\"pl\":"); self.place(body, p);
            }
            Rvalue::ThreadLocalRef(_) => self.w.r("{\"k\":\"tls\""),
            Rvalue::RawPtr(_, p) => { self.w.r("{\"k\":\"rawptr\",\"pl\":"); self.place(body, p); }
            Rvalue::Cast(k, o, t) => {
                self.w.r("{\"k\":\"cast\",\"ck\":"); let s = format!("{:?}", k); self.w.s(&s);
                self.w.r(",\"o\":"); self.operand(body, o); self.w.r(",\"ty\":"); self.w.s(&tystr(*t));
            }
            Rvalue::BinaryOp(op, b) => {
                self.w.r("{\"k\":\"bin\",\"op\":"); let s = format!("{:?}", op); self.w.s(&s);
                self.w.r(",\"a\":"); self.operand(body, &b.0); self.w.r(",\"b\":"); self.operand(body, &b.1);
            }
            Rvalue::UnaryOp(op, o) => {
                self.w.r("{\"k\":\"un\",\"op\":"); let s = format!("{:?}", op); self.w.s(&s);
                self.w.r(",\"o\":"); self.operand(body, o);
            }
            Rvalue::Discriminant(p) => {
                self.w.r("{\"k\":\"disc\",\"pl\":"); self.place(body, p);
                let t = p.ty(body, tcx).ty;
                self.w.r(",\"ty\":"); self.w.s(&tystr(t));
                if let ty::Adt(a, _) = t.kind() { self.w.r(",\"adt\":"); let s = path(tcx, a.did()); self.w.s(&s);
                    if !a.did().is_local() && a.is_enum() {
                        self.w.r(",\"vars\":[");
                        for (vi, v) in a.variants().iter_enumerated() {
                            if vi.as_usize() > 0 { self.w.r(","); }
                            let dv = a.discriminant_for_variant(tcx, vi).val;
                            let _ = write!(self.w.0, "[{},", dv); self.w.s(v.name.as_str()); self.w.r("]");
                        }
                        self.w.r("]");
                    }
                }
            }
            Rvalue::Aggregate(k, fs) => {
                self.w.r("{\"k\":\"agg\",");
                match &**k {
                    AggregateKind::Array(_) => self.w.r("\"a\":\"array\""),
                    AggregateKind::Tuple => self.w.r("\"a\":\"tuple\""),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let adt = tcx.adt_def(*d);
                        self.w.r("\"a\":\"adt\",\"adt\":"); let s = path(tcx, *d); self.w.s(&s);
                        self.w.r(",\"var\":"); let v = adt.variant(*vi); self.w.s(v.name.as_str());
                        self.w.r(",\"fn\":[");
                        let mut first = true;
                        for f in v.fields.iter() { if !first { self.w.r(","); } first = false; self.w.s(f.name.as_str()); }
                        self.w.r("]");
                    }
                    AggregateKind::Closure(d, _) => { self.w.r("\"a\":\"closure\",\"def\":"); let s = path(tcx, *d); self.w.s(&s); }
                    _ => self.w.r("\"a\":\"other\""),
                }
                self.w.r(",\"o\":"); self.ops(body, fs.iter());
            }
            Rvalue::CopyForDeref(p) => { self.w.r("{\"k\":\"use\",\"o\":{\"k\":\"copy\",\"pl\":"); self.place(body, p); self.w.r("}"); }
            _ => { self.w.r("{\"k\":\"other\",\"s\":"); let s = format!("{:?}", r); self.w.s(&s); }
        }
        self.w.r("}");
    }
    fn body(&mut self, id: LocalDefId, kind: &str) {
        let tcx = self.tcx;
        let did = id.to_def_id();
        let body: &Body<'tcx> = match tcx.hir_body_const_context(id) {
            Some(_) if !matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) => tcx.mir_for_ctfe(did),
            _ => tcx.optimized_mir(did),
        };
        let p = path(tcx, did);
        self.emit_body(&p, did, body, kind);
        if matches!(kind, "fn" | "closure") {
            let proms = tcx.promoted_mir(did);
            for (i, b) in proms.iter_enumerated() {
                let pp = format!("{}::promoted[{}]", p, i.as_usize());
                self.emit_body(&pp, did, b, "promoted");
            }
        }
    }
    fn emit_body(&mut self, p: &str, did: DefId, body: &Body<'tcx>, kind: &str) {
        let tcx = self.tcx;
        if !self.first_body { self.w.r(","); }
        self.first_body = false;
        self.w.r("{\"path\":"); self.w.s(p);
        self.w.r(",\"kind\":"); self.w.s(kind);
        if kind == "fn" {
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                self.w.r(",\"self_ty\":"); self.w.s(&tystr(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    self.w.r(",\"impl_trait\":"); let s = path(tcx, tr.def_id); self.w.s(&s);
                    let ai = tcx.associated_item(did);
                    if let Some(ti) = ai.trait_item_def_id() { self.w.r(",\"trait_item\":"); let s = path(tcx, ti); self.w.s(&s); }
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                self.w.r(",\"trait_default\":"); let s = path(tcx, tr); self.w.s(&s);
            }
            let sig = tcx.fn_sig(did).skip_binder().skip_binder();
            self.w.r(if sig.safety().is_unsafe() { ",\"unsafe\":true" } else { ",\"unsafe\":false" });
            self.w.r(",\"abi\":"); let s = format!("{:?}", sig.abi()); self.w.s(&s);
            self.w.r(",\"pub\":"); self.w.r(if tcx.visibility(did).is_public() { "true" } else { "false" });
        }
        self.w.r(",\"span\":"); self.span(body.span);
        let _ = write!(self.w.0, ",\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 { self.w.r(","); }
            self.w.s(&tystr(l.ty));
        }
        self.w.r("],\"names\":{");
        let mut first = true;
        let mut seen = std::collections::BTreeSet::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(pl) = &v.value {
                if pl.projection.is_empty() && seen.insert(pl.local.as_usize()) {
                    if !first { self.w.r(","); } first = false;
                    let _ = write!(self.w.0, "\"{}\":", pl.local.as_usize());
                    self.w.s(v.name.as_str());
                }
            }
        }
        self.w.r("},\"upvars\":[");
        let mut first = true;
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(pl) = &v.value {
                if !pl.projection.is_empty() && pl.local.as_usize() == 1 {
                    if !first { self.w.r(","); } first = false;
                    self.w.r("["); self.w.s(v.name.as_str()); self.w.r(","); self.place(body, pl); self.w.r("]");
                }
            }
        }
        self.w.r("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { self.w.r(","); }
            self.w.r("{\"s\":[");
            let mut first = true;
            for st in b.statements.iter() {
                match &st.kind {
                    StatementKind::Assign(bx) => {
                        if !first { self.w.r(","); } first = false;
                        self.w.r("{\"k\":\"=\",\"d\":"); self.place(body, &bx.0);
                        self.w.r(",\"r\":"); self.rvalue(body, &bx.1);
                        self.w.r(",\"sp\":"); self.span(st.source_info.span);
                        self.w.r("}");
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        if !first { self.w.r(","); } first = false;
                        self.w.r("{\"k\":\"setdisc\",\"d\":"); self.place(body, place);
                        let t = place.ty(body, tcx).ty;
                        let n = if let ty::Adt(adt, _) = t.kind() { adt.variant(*variant_index).name.to_string() } else { "?".into() };
                        self.w.r(",\"var\":"); self.w.s(&n);
                        self.w.r(",\"sp\":"); self.span(st.source_info.span);
                        self.w.r("}");
                    }
                    StatementKind::StorageDead(l) => {
                        if !first { self.w.r(","); } first = false;
                        let _ = write!(self.w.0, "{{\"k\":\"dead\",\"l\":{}}}", l.as_usize());
                    }
                    _ => {}
                }
            }
            self.w.r("],\"t\":{");
            let t = b.terminator();
            let tgt = |bb: BasicBlock| bb.as_usize();
            match &t.kind {
                TerminatorKind::Goto { target, .. } => { let _ = write!(self.w.0, "\"k\":\"goto\",\"t\":{}", tgt(*target)); }
                TerminatorKind::SwitchInt { discr, targets } => {
                    self.w.r("\"k\":\"switch\",\"o\":"); self.operand(body, discr);
                    self.w.r(",\"ty\":"); let ts = tystr(discr.ty(body, tcx)); self.w.s(&ts);
                    self.w.r(",\"v\":[");
                    let mut f = true;
                    for (v, bb) in targets.iter() { if !f { self.w.r(","); } f = false; let _ = write!(self.w.0, "[{},{}]", v, tgt(bb)); }
                    let _ = write!(self.w.0, "],\"ow\":{}", tgt(targets.otherwise()));
                }
                TerminatorKind::Return => self.w.r("\"k\":\"return\""),
                TerminatorKind::Unreachable => self.w.r("\"k\":\"unreachable\""),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => self.w.r("\"k\":\"resume\""),
                TerminatorKind::Drop { place, target, .. } => {
                    self.w.r("\"k\":\"drop\",\"pl\":"); self.place(body, place);
                    self.w.r(",\"ty\":"); let ts = tystr(place.ty(body, tcx).ty); self.w.s(&ts);
                    let _ = write!(self.w.0, ",\"t\":{}", tgt(*target));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    self.w.r("\"k\":\"call\",\"f\":"); self.operand(body, func);
                    self.w.r(",\"a\":"); self.ops(body, args.iter().map(|a| &a.node));
                    self.w.r(",\"d\":"); self.place(body, destination);
                    self.w.r(",\"dty\":"); let ts = tystr(destination.ty(body, tcx).ty); self.w.s(&ts);
                    if let Some(tg) = target { let _ = write!(self.w.0, ",\"t\":{}", tgt(*tg)); } else { self.w.r(",\"t\":null"); }
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    self.w.r("\"k\":\"tailcall\",\"f\":"); self.operand(body, func);
                    self.w.r(",\"a\":"); self.ops(body, args.iter().map(|a| &a.node));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    self.w.r("\"k\":\"assert\",\"o\":"); self.operand(body, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflowneg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        o => { let _ = o; "other".into() }
                    };
                    let _ = write!(self.w.0, ",\"exp\":{},\"t\":{},\"m\":", expected, tgt(*target));
                    self.w.s(&m);
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            self.w.r(",\"len\":"); self.operand(body, len); self.w.r(",\"idx\":"); self.operand(body, index);
                        }
                        AssertKind::Overflow(_, a, b) => { self.w.r(",\"x\":"); self.operand(body, a); self.w.r(",\"y\":"); self.operand(body, b); }
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => { self.w.r(",\"x\":"); self.operand(body, a); }
                        _ => {}
                    }
                }
                TerminatorKind::FalseEdge { real_target, .. } => { let _ = write!(self.w.0, "\"k\":\"goto\",\"t\":{}", tgt(*real_target)); }
                TerminatorKind::FalseUnwind { real_target, .. } => { let _ = write!(self.w.0, "\"k\":\"goto\",\"t\":{}", tgt(*real_target)); }
                o => { self.w.r("\"k\":\"other\",\"s\":"); let s = format!("{:?}", o); self.w.s(&s); }
            }
            self.w.r(",\"sp\":"); self.span(t.source_info.span);
            let _ = write!(self.w.0, "}},\"c\":{}}}", if b.is_cleanup { 1 } else { 0 });
        }
        self.w.r("]}\n");
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = D { tcx, w: W(String::new()), first_body: true };
        d.w.r("{\"crate\":");
        let cn = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        d.w.s(&cn);
        d.w.r(",\"adts\":[");
        let mut first = true;
        let mut unsafe_blocks: Vec<(LocalDefId, Span)> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let adt = tcx.adt_def(id.to_def_id());
                if !first { d.w.r(",\n"); } first = false;
                d.w.r("{\"path\":"); let s = path(tcx, id.to_def_id()); d.w.s(&s);
                d.w.r(",\"kind\":"); d.w.s(&format!("{:?}", k));
                d.w.r(",\"repr\":"); d.w.s(&format!("{:?}", adt.repr()));
                d.w.r(",\"pub\":"); d.w.r(if tcx.visibility(id.to_def_id()).is_public() { "true" } else { "false" });
                d.w.r(",\"span\":"); d.span(tcx.def_span(id.to_def_id()));
                d.w.r(",\"vars\":[");
                for (vi, v) in adt.variants().iter_enumerated() {
                    if vi.as_usize() > 0 { d.w.r(","); }
                    d.w.r("{\"name\":"); d.w.s(v.name.as_str());
                    if adt.is_enum() { let dv = adt.discriminant_for_variant(tcx, vi).val; let _ = write!(d.w.0, ",\"d\":{}", dv); }
                    d.w.r(",\"fields\":[");
                    for (fi, f) in v.fields.iter_enumerated() {
                        if fi.as_usize() > 0 { d.w.r(","); }
                        d.w.r("["); d.w.s(f.name.as_str()); d.w.r(",");
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        d.w.s(&tystr(ft)); d.w.r("]");
                    }
                    d.w.r("]}");
                }
                d.w.r("]}");
            }
        }
        d.w.r("],\"statics\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(id) {
                if !first { d.w.r(","); } first = false;
                d.w.r("{\"path\":"); let s = path(tcx, id.to_def_id()); d.w.s(&s);
                d.w.r(",\"mut\":"); d.w.r(if mutability.is_mut() { "true" } else { "false" });
                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                d.w.r(",\"ty\":"); d.w.s(&tystr(t));
                let env = ty::TypingEnv::fully_monomorphized();
                d.w.r(",\"freeze\":"); d.w.r(if t.is_freeze(tcx, env) { "true" } else { "false" });
                d.w.r(",\"span\":"); d.span(tcx.def_span(id.to_def_id()));
                d.w.r("}");
            }
        }
        d.w.r("],\"consts\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let did = id.to_def_id();
                if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
                if tcx.trait_of_assoc(did).is_some() { continue; }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if !(t.is_integral() || t.is_bool()) { continue; }
                if let Ok(v) = tcx.const_eval_poly(did) {
                    if let Some(s) = v.try_to_scalar_int() {
                        if !first { d.w.r(","); } first = false;
                        d.w.r("{\"path\":"); let ps = path(tcx, did); d.w.s(&ps);
                        d.w.r(",\"ty\":"); d.w.s(&tystr(t));
                        let sz = s.size();
                        let bits = s.to_bits(sz);
                        let vs = if t.is_signed() { format!("{}", sz.sign_extend(bits)) } else { format!("{}", bits) };
                        let _ = write!(d.w.0, ",\"v\":{}}}", vs);
                    }
                }
            }
        }
        d.w.r("],\"impls\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                if !first { d.w.r(",\n"); } first = false;
                let st = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                d.w.r("{\"self\":"); d.w.s(&tystr(st));
                if let ty::Adt(a, _) = st.kind() { d.w.r(",\"self_adt\":"); let s = path(tcx, a.did()); d.w.s(&s); }
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(id.to_def_id()) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        d.w.r(",\"trait\":"); let s = path(tcx, tr.def_id); d.w.s(&s);
                        let s = ty::print::with_no_trimmed_paths!(format!("{}", tr)); d.w.r(",\"trait_ref\":"); d.w.s(&s);
                    }
                    let neg = tcx.impl_polarity(id.to_def_id());
                    d.w.r(",\"unsafe\":"); d.w.r(if tcx.impl_trait_header(id.to_def_id()).safety.is_unsafe() { "true" } else { "false" });
                    let _ = neg;
                }
                d.w.r(",\"items\":[");
                let mut f2 = true;
                for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                    if !f2 { d.w.r(","); } f2 = false;
                    d.w.r("["); d.w.s(&it.opt_name().map(|n| n.to_string()).unwrap_or_default()); d.w.r(","); let s = path(tcx, it.def_id); d.w.s(&s);
                    d.w.r(",");
                    if let ty::AssocKind::Type { .. } = it.kind { let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip(); d.w.s(&tystr(t)); } else { d.w.r("null"); }
                    d.w.r("]");
                }
                d.w.r("],\"span\":"); d.span(tcx.def_span(id.to_def_id())); d.w.r("}");
            }
        }
        d.w.r("],\"externs\":[");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
                let attrs = tcx.codegen_fn_attrs(id);
                let sig = tcx.fn_sig(id.to_def_id()).skip_binder().skip_binder();
                if attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) {
                    if !first { d.w.r(","); } first = false;
                    d.w.r("{\"path\":"); let s = path(tcx, id.to_def_id()); d.w.s(&s);
                    d.w.r(",\"name\":"); let s = tcx.item_name(id.to_def_id()).to_string(); d.w.s(&s);
                    d.w.r(",\"abi\":"); d.w.s(&format!("{:?}", sig.abi()));
                    d.w.r(",\"ret\":"); d.w.s(&tystr(sig.output()));
                    d.w.r(",\"in\":[");
                    for (i, t) in sig.inputs().iter().enumerate() { if i > 0 { d.w.r(","); } d.w.s(&tystr(*t)); }
                    d.w.r("]}");
                }
            }
        }
        d.w.r("],\"unsafe\":[");
        {
            struct V<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<Span> }
            impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
                fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt { self.tcx }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.out.push(b.span); }
                    rustc_hir::intravisit::walk_block(self, b);
                }
            }
            for id in tcx.hir_body_owners() {
                if matches!(tcx.def_kind(id), DefKind::Closure) { continue; }
                let mut v = V { tcx, out: vec![] };
                let b = tcx.hir_body_owned_by(id);
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
                for s in v.out { unsafe_blocks.push((id, s)); }
            }
        }
        let mut first = true;
        for (id, sp) in unsafe_blocks {
            if !first { d.w.r(","); } first = false;
            d.w.r("{\"in\":"); let s = path(tcx, id.to_def_id()); d.w.s(&s);
            d.w.r(",\"span\":"); d.span(sp); d.w.r("}");
        }
        d.w.r("],\"bodies\":[\n");
        for id in tcx.hir_body_owners() {
            let k = tcx.def_kind(id);
            let kind = match k {
                DefKind::Fn | DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => "const",
                _ => continue,
            };
            if tcx.is_constructor(id.to_def_id()) { continue; }
            if kind == "const" && tcx.generics_of(id.to_def_id()).requires_monomorphization(tcx) { continue; }
            d.body(id, kind);
        }
        d.w.r("]}\n");
        std::fs::write(&self.out, d.w.0.as_bytes()).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let get = |f: &str| args.iter().position(|a| a == f).and_then(|i| args.get(i + 1)).cloned();
    let name = get("--crate-name").unwrap_or_default();
    let bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let outdir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if !outdir.is_empty() && name == "divans" && !test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
        let out = format!("{}/{}.json", outdir, if bin { "bin" } else { "lib" });
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        struct N; impl Callbacks for N {}
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
