#![feature(rustc_private)]
//! Dumps the type-checked program (MIR of every body of the crate, with resolved callees,
//! types, ADT layouts and impl tables) as JSON. Injected with RUSTC_WORKSPACE_WRAPPER.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".into())
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        ))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        let mut vs = vec![];
        let discs: Vec<(u32, String)> = if def.is_enum() {
            def.discriminants(self.tcx)
                .map(|(i, d)| {
                    let v = match d.ty.kind() {
                        ty::Int(_) => {
                            let sz = 128 - d.ty.primitive_size(self.tcx).bits();
                            format!("{}", ((d.val << sz) as i128) >> sz)
                        }
                        _ => format!("{}", d.val),
                    };
                    (i.as_u32(), v)
                })
                .collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let fs: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
            let d = discs
                .iter()
                .find(|x| x.0 == i.as_u32())
                .map(|x| x.1.clone());
            vs.push(format!(
                "{{\"n\":{},\"f\":{},\"d\":{}}}",
                esc(v.name.as_str()),
                arr(fs),
                opt(d)
            ));
        }
        let s = format!(
            "{{\"p\":{},\"enum\":{},\"v\":{}}}",
            esc(&self.key(def.did())),
            def.is_enum(),
            arr(vs)
        );
        self.adts.insert(def.did(), s);
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| g.as_type())
            .map(|t| self.ty(t).to_string())
            .collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let s = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", esc(&t.to_string()))
            }
            ty::Adt(d, a) => {
                self.adt(*d);
                let k = self.key(d.did());
                let a = self.args(a);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&k), a)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", i)
            }
            ty::Array(t, n) => {
                let i = self.ty(*t);
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"k\":\"array\",\"t\":{},\"n\":{}}}",
                    i,
                    opt(n.map(|x| x.to_string()))
                )
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&self.key(*d))),
            ty::FnDef(d, _) => {
                format!("{{\"k\":\"fndef\",\"p\":{}}}", esc(&self.key(*d)))
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&t.to_string())),
        };
        // (recursion may have inserted others meanwhile)
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(s);
        self.tymap.insert(t, i);
        i
    }
    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut tr = None;
        let mut selfty = None;
        if let Some(assoc) = tcx.opt_associated_item(d) {
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Trait => {
                    tr = Some(esc(&self.key(parent)));
                    if let Some(t) = a.types().next() {
                        selfty = Some(self.ty(t).to_string());
                    }
                }
                DefKind::Impl { of_trait } => {
                    if of_trait {
                        let trd = tcx.impl_trait_ref(parent).skip_binder().def_id;
                        tr = Some(esc(&self.key(trd)));
                    }
                    let st = tcx.type_of(parent).skip_binder();
                    selfty = Some(self.ty(st).to_string());
                }
                _ => {}
            }
            let _ = assoc;
        }
        let mut res = None;
        let erased = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, erased) {
            let rd = inst.def_id();
            res = Some(esc(&self.key(rd)));
        }
        let krate = esc(tcx.crate_name(d.krate).as_str());
        let name = tcx.opt_item_name(d).map(|n| esc(n.as_str()));
        let args = self.args(a);
        format!(
            "{{\"key\":{},\"path\":{},\"krate\":{},\"name\":{},\"trait\":{},\"self\":{},\"res\":{},\"args\":{}}}",
            esc(&self.key(d)),
            esc(&self.path(d)),
            krate,
            opt(name),
            opt(tr),
            opt(selfty),
            opt(res),
            args
        )
    }
    fn line(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", loc.line)
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}", loc.file.name.prefer_remapped_unconditionally())
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_u32()),
                ProjectionElem::Downcast(_, i) => format!("[\"v\",{}]", i.as_u32()),
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => format!("[\"cidx\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::OpaqueCast(_) => "[\"cast\"]".into(),
                _ => "[\"other\"]".into(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(v))
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let ty = c.const_.ty();
        let ti = self.ty(ty);
        if let ty::FnDef(d, a) = ty.kind() {
            let f = self.fnref(*d, a.skip_binder(), env);
            return format!("{{\"c\":\"fn\",\"fn\":{},\"ty\":{}}}", f, ti);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"c\":\"promoted\",\"i\":{},\"of\":{},\"ty\":{}}}",
                    p.as_u32(),
                    esc(&self.key(u.def)),
                    ti
                );
            }
        }
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                    let v = match ty.kind() {
                        ty::Int(_) => {
                            let sz = 128 - ty.primitive_size(self.tcx).bits();
                            format!("{}", ((b << sz) as i128) >> sz)
                        }
                        ty::Float(ty::FloatTy::F64) => {
                            format!("{}", esc(&format!("{:?}", f64::from_bits(b as u64))))
                        }
                        ty::Float(ty::FloatTy::F32) => {
                            format!("{}", esc(&format!("{:?}", f32::from_bits(b as u32))))
                        }
                        _ => format!("{}", b),
                    };
                    return format!("{{\"c\":\"val\",\"v\":{},\"ty\":{}}}", v, ti);
                }
            }
            _ => {}
        }
        format!(
            "{{\"c\":\"other\",\"s\":{},\"ty\":{}}}",
            esc(&format!("{}", c.const_)),
            ti
        )
    }
    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => {
                format!("{{\"o\":\"const\",\"k\":{}}}", self.constant(c, env))
            }
            #[allow(unreachable_patterns)]
            _ => "{\"o\":\"rt\"}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                    self.op(o, env),
                    opt(n.map(|x| x.to_string()))
                )
            }
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"o\":{},\"ty\":{}}}",
                    esc(&format!("{:?}", k)),
                    self.op(o, env),
                    ti
                )
            }
            Rvalue::BinaryOp(b, ab) => format!(
                "{{\"r\":\"bin\",\"b\":{},\"l\":{},\"x\":{}}}",
                esc(&format!("{:?}", b)),
                self.op(&ab.0, env),
                self.op(&ab.1, env)
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "{{\"r\":\"un\",\"u\":{},\"o\":{}}}",
                esc(&format!("{:?}", u)),
                self.op(o, env)
            ),
            Rvalue::Discriminant(p) => {
                format!("{{\"r\":\"disc\",\"p\":{}}}", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.op(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "\"array\",\"n\":null,\"v\":0".to_string(),
                    AggregateKind::Tuple => "\"tuple\",\"n\":null,\"v\":0".to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        format!("\"adt\",\"n\":{},\"v\":{}", esc(&self.key(*d)), v.as_u32())
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("\"closure\",\"n\":{},\"v\":0", esc(&self.key(*d)))
                    }
                    _ => "\"other\",\"n\":null,\"v\":0".to_string(),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"a\":{}}}", kk, arr(ops))
            }
            Rvalue::CopyForDeref(p) => {
                format!(
                    "{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}",
                    self.place(p)
                )
            }
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let locals: Vec<String> = body
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty).to_string())
            .collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, env);
                        st.push(format!("[{},{},{}]", self.line(s.source_info.span), p, r));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(place);
                        st.push(format!(
                            "[{},{},{{\"r\":\"setdisc\",\"v\":{}}}]",
                            self.line(s.source_info.span),
                            p,
                            variant_index.as_u32()
                        ));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[0,[{},[]],{{\"r\":\"sd\"}}]", l.as_u32()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_u32())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_u32()))
                        .collect();
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(dty);
                    format!(
                        "{{\"t\":\"switch\",\"o\":{},\"v\":{},\"else\":{},\"ty\":{}}}",
                        self.op(discr, env),
                        arr(v),
                        targets.otherwise().as_u32(),
                        ti
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    format!(
                        "{{\"t\":\"drop\",\"to\":{},\"p\":{}}}",
                        target.as_u32(),
                        self.place(place)
                    )
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = self.op(func, env);
                    let a: Vec<String> = args.iter().map(|a| self.op(&a.node, env)).collect();
                    let d = self.place(destination);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{}}}",
                        f,
                        arr(a),
                        d,
                        opt(target.map(|t| t.as_u32().to_string()))
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let (kind, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.op(len, env), self.op(index, env)])
                        }
                        AssertKind::Overflow(b, l, r) => (
                            format!("overflow:{:?}", b),
                            vec![self.op(l, env), self.op(r, env)],
                        ),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.op(o, env)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.op(o, env)]),
                        m => (format!("other:{:?}", std::mem::discriminant(m)), vec![]),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"ops\":{},\"to\":{}}}",
                        self.op(cond, env),
                        expected,
                        esc(&kind),
                        arr(ops),
                        target.as_u32()
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "{\"t\":\"unreachable\"}".into()
                }
                other => format!("{{\"t\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
            };
            bbs.push(format!(
                "{{\"s\":{},\"t\":{},\"l\":{}}}",
                arr(st),
                tj,
                line
            ));
        }
        format!(
            "{{\"nargs\":{},\"locals\":{},\"names\":{},\"spread\":{},\"bbs\":{}}}",
            body.arg_count,
            arr(locals),
            arr(names),
            opt(body.spread_arg.map(|l| l.as_u32().to_string())),
            arr(bbs)
        )
    }
    fn func(&mut self, ld: LocalDefId) -> String {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let body = tcx.optimized_mir(d);
        let b = self.body(body, env);
        let proms: Vec<String> = tcx
            .promoted_mir(d)
            .iter()
            .map(|p| p.clone())
            .map(|p| self.body(&p, env))
            .collect();
        let mut tr = None;
        let mut selfty = None;
        let mut intrait = false;
        let root = tcx.typeck_root_def_id(d);
        if tcx.opt_associated_item(root).is_some() {
            let parent = tcx.parent(root);
            match tcx.def_kind(parent) {
                DefKind::Trait => {
                    tr = Some(esc(&self.key(parent)));
                    intrait = true;
                }
                DefKind::Impl { of_trait } => {
                    if of_trait {
                        let trd = tcx.impl_trait_ref(parent).skip_binder().def_id;
                        tr = Some(esc(&self.key(trd)));
                    }
                    let st = tcx.type_of(parent).skip_binder();
                    selfty = Some(self.ty(st).to_string());
                }
                _ => {}
            }
        }
        let is_unsafe = matches!(kind, DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        let reach = tcx.effective_visibilities(()).is_reachable(ld);
        let name = tcx.opt_item_name(d).map(|n| esc(n.as_str()));
        let gens: Vec<String> = {
            let mut v = vec![];
            let mut g = Some(tcx.generics_of(d));
            let mut chain = vec![];
            while let Some(x) = g {
                chain.push(x);
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            for x in chain.iter().rev() {
                for p in &x.own_params {
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        v.push(esc(p.name.as_str()));
                    }
                }
            }
            v
        };
        let sp = tcx.def_span(d);
        format!(
            "{{\"key\":{},\"path\":{},\"name\":{},\"kind\":{},\"trait\":{},\"in_trait\":{},\"self\":{},\"unsafe\":{},\"reachable\":{},\"generics\":{},\"file\":{},\"line\":{},\"body\":{},\"promoted\":{}}}",
            esc(&self.key(d)),
            esc(&self.path(d)),
            opt(name),
            esc(&format!("{:?}", kind)),
            opt(tr),
            intrait,
            opt(selfty),
            is_unsafe,
            reach,
            arr(gens),
            esc(&self.file(sp)),
            self.line(sp),
            b,
            arr(proms)
        )
    }
    fn impls(&mut self) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        for (trd, impls) in tcx.all_local_trait_impls(()) {
            for i in impls {
                let d = i.to_def_id();
                let st = tcx.type_of(d).skip_binder();
                let si = self.ty(st);
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocFn) {
                        items.push(format!(
                            "[{},{}]",
                            esc(it.name().as_str()),
                            esc(&self.key(it.def_id))
                        ));
                    }
                }
                v.push(format!(
                    "{{\"trait\":{},\"self\":{},\"items\":{}}}",
                    esc(&self.key(*trd)),
                    si,
                    arr(items)
                ));
            }
        }
        arr(v)
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut d = Dump {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: HashMap::new(),
        };
        let mut fns = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            match tcx.def_kind(ld) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => fns.push(d.func(ld)),
                DefKind::Static { mutability, .. } => statics.push(format!(
                    "{{\"key\":{},\"mut\":{},\"cell\":{},\"tls\":{},\"line\":{},\"file\":{}}}",
                    esc(&d.key(ld.to_def_id())),
                    mutability.is_mut(),
                    !tcx.type_of(ld).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, ld.to_def_id())),
                    tcx.is_thread_local_static(ld.to_def_id()),
                    d.line(tcx.def_span(ld)),
                    esc(&d.file(tcx.def_span(ld)))
                )),
                _ => {}
            }
        }
        let impls = d.impls();
        let feats: Vec<String> = vec![];
        let _ = feats;
        let mut adts: Vec<(String, String)> = d
            .adts
            .iter()
            .map(|(k, v)| (d.key(*k), v.clone()))
            .collect();
        adts.sort();
        let adts: Vec<String> = adts.into_iter().map(|x| x.1).collect();
        let s = format!(
            "{{\"crate\":{},\"fns\":{},\"statics\":{},\"impls\":{},\"adts\":{},\"types\":{}}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(fns),
            arr(statics),
            impls,
            arr(adts),
            arr(d.types.clone())
        );
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let want = std::env::var("LV_CRATE").unwrap_or_default();
    let is = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want);
    let out = std::env::var("LV_OUT").ok();
    if let (true, Some(out)) = (is, out) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
