// kfacts: a rustc driver that dumps the type-checked program (optimised-off
// MIR with resolved callees, constants, impl tables) of every workspace crate
// as JSON, for the analyses in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

macro_rules! names {
    ($e:expr) => {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e)))
    };
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    names!(tcx.def_path_str(d))
}
fn tys(t: Ty<'_>) -> String {
    names!(t.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'tcx Body<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if vi.as_usize() < ad.variants().len()
                                && f.as_usize() < ad.variant(vi).fields.len()
                            {
                                ad.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let own = match pt.ty.kind() {
                        ty::Adt(ad, _) => path(self.tcx, ad.did()),
                        ty::Closure(d, _) => format!("closure:{}", path(self.tcx, *d)),
                        _ => String::new(),
                    };
                    format!("[\"f\",{},{},{}]", f.as_usize(), esc(&name), esc(&own))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    format!("[\"v\",{},{}]", vi.as_usize(), esc(&nm))
                }
                _ => "[\"o\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, el);
        }
        list(v)
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"p\":{}", esc(&path(tcx, d)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&path(tcx, tr)));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    let _ = write!(o, ",\"self\":{}", esc(&tys(t)));
                }
            }
        }
        let ta: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type().map(|t| esc(&tys(t))))
            .collect();
        if !ta.is_empty() {
            let _ = write!(o, ",\"ta\":{}", list(ta));
        }
        // closures among the generic args: record their def paths
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                for w in t.walk() {
                    if let Some(t2) = w.as_type() {
                        match t2.kind() {
                            ty::Closure(cd, _) => cl.push(esc(&path(tcx, *cd))),
                            ty::FnDef(fd, _) => cl.push(esc(&path(tcx, *fd))),
                            _ => {}
                        }
                    }
                }
            }
        }
        if !cl.is_empty() {
            let _ = write!(o, ",\"cl\":{}", list(cl));
        }
        if let DefKind::Fn | DefKind::AssocFn = tcx.def_kind(d) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let args = tcx.erase_and_anonymize_regions(args);
                Instance::try_resolve(tcx, self.env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                match inst.def {
                    InstanceKind::Virtual(..) => o.push_str(",\"virt\":1"),
                    k => {
                        let rd = k.def_id();
                        let _ = write!(o, ",\"r\":{}", esc(&path(tcx, rd)));
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn konst(&self, c: &Const<'tcx>, span: rustc_span::Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                return format!("{{\"fn\":{}}}", self.fnref(*d, args.no_bound_vars().unwrap()));
            }
            _ => {}
        }
        let mut o = format!("{{\"t\":{}", esc(&tys(t)));
        if let Const::Unevaluated(u, _) = c {
            let _ = write!(o, ",\"d\":{}", esc(&path(tcx, u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"pr\":{}", p.as_usize());
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(tcx, self.env) {
                let _ = write!(o, ",\"v\":{}", esc(&b.to_string()));
            }
        } else {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                c.eval(tcx, self.env, span)
            }));
            if let Ok(Ok(cv)) = r {
                if let ConstValue::Scalar(interpret::Scalar::Int(i)) = cv {
                    let _ = write!(o, ",\"v\":{}", esc(&i.to_bits_unchecked().to_string()));
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            let s: String = String::from_utf8_lossy(b).chars().take(400).collect();
                            let _ = write!(o, ",\"s\":{}", esc(&s));
                        }
                    }
                }
                // reference to an array of bytes
                if let (ty::Ref(_, inner, _), ConstValue::Scalar(interpret::Scalar::Ptr(p, _))) = (t.kind(), &cv) {
                    if let ty::Array(el, n) = inner.kind() {
                        let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                        if *el == tcx.types.u8 && n > 0 && n <= 400 {
                            let (prov, off) = p.prov_and_relative_offset();
                            if let Some(interpret::GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                let off = off.bytes() as usize;
                                let m = m.inner();
                                if off + n <= m.len() {
                                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                                    let s: String = b.iter().map(|&c| if (0x20..0x7f).contains(&c) { c as char } else { '\u{1}' }).collect();
                                    let _ = write!(o, ",\"bs\":{}", esc(&s));
                                }
                            }
                        }
                    }
                }
                // reference to a static
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = cv {
                    let aid = p.provenance.alloc_id();
                    if let Some(interpret::GlobalAlloc::Static(sd)) = tcx.try_get_global_alloc(aid)
                    {
                        let _ = write!(o, ",\"st\":{}", esc(&path(tcx, sd)));
                    }
                }
                if let ty::Adt(ad, _) = t.kind() {
                    // single-scalar newtypes such as bitflags, read raw bytes
                    if ad.is_struct() {
                        if let ConstValue::Indirect { alloc_id, offset } = cv {
                            let _ = (alloc_id, offset);
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn operand(&self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_, c.span)),
            _ => "{\"k\":{\"t\":\"bool\"}}".to_string(),
        }
    }

    fn rvalue(&self, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(op)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string());
                format!("[\"rep\",{},{}]", self.operand(op), esc(&n.unwrap_or_default()))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(self.tcx, *d))),
            Rvalue::RawPtr(k, p) => {
                format!("[\"raw\",{},{}]", esc(&format!("{:?}", k)), self.place(p))
            }
            Rvalue::Cast(k, op, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k).chars().take(40).collect::<String>()),
                self.operand(op),
                esc(&tys(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.operand(&ops.0),
                self.operand(&ops.1)
            ),
            Rvalue::UnaryOp(u, op) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(op))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                format!("[\"disc\",{},{}]", self.place(p), esc(&tys(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, uf) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        let fl: Vec<String> = match uf {
                            Some(f) => vec![esc(&v.fields[*f].name.to_string())],
                            None => v.fields.iter().map(|f| esc(&f.name.to_string())).collect(),
                        };
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&path(self.tcx, *d)),
                            vi.as_usize(),
                            esc(&v.name.to_string()),
                            list(fl)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{}]", esc(&path(self.tcx, *d)))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, list(o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn dump(&self) -> String {
        let b = self.body;
        let mut o = String::new();
        let locs: Vec<String> = b.local_decls.iter().map(|l| esc(&tys(l.ty))).collect();
        let _ = write!(o, "\"argc\":{},\"locals\":{}", b.arg_count, list(locs));
        let mut nm = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                nm.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let _ = write!(o, ",\"names\":{}", list(nm));
        let mut bl = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                bl.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let (p, rv) = &**x;
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(p),
                            self.rvalue(rv),
                            self.line(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "[{},[\"setdisc\",{}],0]",
                        self.place(place),
                        variant_index.as_usize()
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t.as_usize()))
                        .collect();
                    format!(
                        "[\"sw\",{},{},{},{},{}]",
                        self.operand(discr),
                        list(tv),
                        targets.otherwise().as_usize(),
                        esc(&tys(discr.ty(&b.local_decls, self.tcx))),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{},{}]",
                        self.place(place),
                        target.as_usize(),
                        esc(&tys(t)),
                        ln
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.konst(&c.const_, c.span),
                        x => format!("{{\"op\":{}}}", self.operand(x)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        list(a),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        esc(&m),
                        target.as_usize(),
                        ln
                    )
                }
                TerminatorKind::Unreachable => "[\"unr\"]".to_string(),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"unr\"]".to_string(),
            };
            bl.push(format!("{{\"s\":{},\"t\":{}}}", list(st), ts));
        }
        let _ = write!(o, ",\"blocks\":[{}]", bl.join(",\n"));
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("KFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        if crate_name.starts_with("build_script") {
            return Compilation::Continue;
        }
        let mut fns = vec![];
        let sm = tcx.sess.source_map();
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (body, ks): (&Body<'_>, &str) = match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    (tcx.optimized_mir(d), "fn")
                }
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                DefKind::Static { .. } => (tcx.mir_for_ctfe(d), "static"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).own_requires_monomorphization()
                        || tcx.generics_of(d).parent_count > 0
                            && tcx
                                .generics_of(tcx.parent(d))
                                .own_requires_monomorphization()
                    {
                        continue;
                    }
                    (tcx.mir_for_ctfe(d), "const")
                }
                _ => continue,
            };
            let env = TypingEnv::post_analysis(tcx, d);
            let cx = Cx { tcx, env, body };
            let lo = sm.lookup_char_pos(tcx.def_span(d).lo());
            let mut o = format!(
                "{{\"id\":{},\"crate\":{},\"kind\":\"{}\",\"file\":{},\"line\":{}",
                esc(&path(tcx, d)),
                esc(&crate_name),
                ks,
                esc(&lo.file.name.prefer_local_unconditionally().to_string()),
                lo.line
            );
            if let DefKind::AssocFn = kind {
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(imp).instantiate_identity();
                    let _ = write!(o, ",\"self\":{}", esc(&tys(st.skip_norm_wip())));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let trd = tr.skip_binder().def_id;
                        let _ = write!(o, ",\"impl_tr\":{}", esc(&path(tcx, trd)));
                        if let Some(ti) = tcx.associated_item(d).trait_item_def_id() {
                            let _ = write!(o, ",\"impl_m\":{}", esc(&path(tcx, ti)));
                        }
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    let _ = write!(o, ",\"trait_default\":{}", esc(&path(tcx, tr)));
                }
            }
            if let DefKind::Fn | DefKind::AssocFn = kind {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let _ = write!(
                    o,
                    ",\"abi\":{},\"pub\":{}",
                    esc(&format!("{:?}", sig.abi())),
                    tcx.visibility(d).is_public()
                );
            }
            if let DefKind::Closure = kind {
                let _ = write!(o, ",\"parent\":{}", esc(&path(tcx, tcx.parent(d))));
            }
            o.push(',');
            o.push_str(&cx.dump());
            // promoteds
            if matches!(ks, "fn" | "closure") {
                let pm = tcx.promoted_mir(d);
                let mut ps = vec![];
                for pb in pm.iter() {
                    let cx = Cx { tcx, env, body: pb };
                    ps.push(format!("{{{}}}", cx.dump()));
                }
                if !ps.is_empty() {
                    let _ = write!(o, ",\"promoted\":{}", list(ps));
                }
            }
            o.push('}');
            fns.push(o);
        }
        // traits, impls, consts, adts
        let mut impls = vec![];
        let mut consts = vec![];
        let mut adts = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if let Some(ti) = it.trait_item_def_id() {
                            ms.push(format!(
                                "{}:{}",
                                esc(&path(tcx, ti)),
                                esc(&path(tcx, it.def_id))
                            ));
                        }
                    }
                    impls.push(format!(
                        "{{\"tr\":{},\"self\":{},\"m\":{{{}}}}}",
                        esc(&path(tcx, tr.def_id)),
                        esc(&tys(st)),
                        ms.join(",")
                    ));
                }
                DefKind::Trait => {
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|it| {
                            format!(
                                "{}:{}",
                                esc(&path(tcx, it.def_id)),
                                it.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!("{}:{{{}}}", esc(&path(tcx, d)), ms.join(",")));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).count() > 0 {
                        continue;
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ok = match t.kind() {
                        ty::Int(_) | ty::Uint(_) | ty::Bool => true,
                        ty::Adt(ad, _) => ad.is_struct(),
                        _ => false,
                    };
                    if !ok || tcx.def_kind(tcx.parent(d)) == DefKind::Trait {
                        continue;
                    }
                    if let Ok(cv) = tcx.const_eval_poly(d) {
                        if let ConstValue::Scalar(interpret::Scalar::Int(i)) = cv {
                            consts.push(format!(
                                "{}:[{},{}]",
                                esc(&path(tcx, d)),
                                esc(&i.to_bits_unchecked().to_string()),
                                esc(&tys(t))
                            ));
                        }
                    }
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants().iter() {
                        let f: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                format!(
                                    "[{},{}]",
                                    esc(&f.name.to_string()),
                                    esc(&tys(tcx
                                        .type_of(f.did)
                                        .instantiate_identity()
                                        .skip_norm_wip()))
                                )
                            })
                            .collect();
                        vs.push(format!("[{},{}]", esc(&v.name.to_string()), list(f)));
                    }
                    let hasdrop = tcx.adt_destructor(d).is_some();
                    adts.push(format!(
                        "{}:{{\"v\":{},\"drop\":{}}}",
                        esc(&path(tcx, d)),
                        list(vs),
                        hasdrop
                    ));
                }
                _ => {}
            }
        }
        let js = format!(
            "{{\"crate\":{},\n\"fns\":[{}],\n\"impls\":[{}],\n\"traits\":{{{}}},\n\"consts\":{{{}}},\n\"adts\":{{{}}}}}\n",
            esc(&crate_name),
            fns.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n"),
            consts.join(",\n"),
            adts.join(",\n")
        );
        let ct = format!("{:?}", tcx.crate_types()).replace(|c: char| !c.is_alphanumeric(), "");
        let f = format!("{}/{}-{}.json", out, crate_name, ct);
        std::fs::write(format!("{}.tmp", f), js).expect("write facts");
        std::fs::rename(format!("{}.tmp", f), f).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    std::panic::set_hook(Box::new(|_| {}));
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
