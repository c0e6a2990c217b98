use crate::json::{J, i, s};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;

const STOP: &str = include_str!("stop.txt");

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    type_list: Vec<(Ty<'tcx>, usize)>,
    envs: Vec<TypingEnv<'tcx>>,
    env_descr: Vec<J>,
    insts: HashMap<(Instance<'tcx>, usize), usize>,
    inst_list: Vec<(Instance<'tcx>, usize, bool)>,
    inst_out: Vec<J>,
    consts: HashMap<(DefId, GenericArgsRef<'tcx>, Option<u32>, usize), usize>,
    const_list: Vec<(DefId, GenericArgsRef<'tcx>, Option<u32>, usize)>,
    stop: Vec<&'static str>,
    names: HashMap<DefId, String>,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D {
        tcx,
        types: HashMap::new(),
        type_out: vec![],
        type_list: vec![],
        envs: vec![],
        env_descr: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        inst_out: vec![],
        consts: HashMap::new(),
        const_list: vec![],
        stop: STOP.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect(),
        names: HashMap::new(),
    };
    let items = d.items();
    let roots = d.roots();
    let steps = d.steps();
    d.run();
    let mut k = 0;
    let mut const_out = vec![];
    // constants may add instances and vice versa
    loop {
        let mut progressed = false;
        while k < d.const_list.len() {
            let c = d.const_list[k];
            k += 1;
            progressed = true;
            let j = d.const_body(c);
            const_out.push(j);
        }
        let before = d.inst_out.len();
        d.run();
        if d.inst_out.len() != before {
            progressed = true;
        }
        if !progressed {
            break;
        }
    }
    let out = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("items", items),
        ("roots", roots),
        ("steps", steps),
        ("types", J::A(std::mem::take(&mut d.type_out))),
        ("envs", J::A(std::mem::take(&mut d.env_descr))),
        ("instances", J::A(std::mem::take(&mut d.inst_out))),
        ("consts", J::A(const_out)),
    ]);
    let mut st = String::new();
    out.w(&mut st);
    st
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        J::S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn name(&mut self, def: DefId) -> String {
        if let Some(n) = self.names.get(&def) {
            return n.clone();
        }
        let tcx = self.tcx;
        let n = if def.is_crate_root() {
            tcx.crate_name(def.krate).to_string()
        } else {
            let parent = tcx.parent(def);
            let data = tcx.def_key(def).disambiguated_data;
            match tcx.def_kind(def) {
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let h = self.head(self_ty);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(def).skip_binder();
                        let t = self.name(tr.def_id);
                        format!("<{h} as {t}>")
                    } else {
                        h
                    }
                }
                DefKind::Ctor(..) => format!("{}::{{ctor}}", self.name(parent)),
                DefKind::Closure | DefKind::AnonConst => {
                    let p = self.name(parent);
                    format!("{p}::{{{}#{}}}", if matches!(tcx.def_kind(def), DefKind::Closure) { "closure" } else { "const" }, data.disambiguator)
                }
                _ => {
                    let p = self.name(parent);
                    match tcx.opt_item_name(def) {
                        Some(x) => format!("{p}::{x}"),
                        None => format!("{p}::{}", data.data),
                    }
                }
            }
        };
        self.names.insert(def, n.clone());
        n
    }

    fn head(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            TyKind::Adt(a, _) => self.name(a.did()),
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(t)),
            TyKind::RawPtr(t, m) => format!("*{}{}", if m.is_mut() { "mut " } else { "const " }, self.head(t)),
            TyKind::Slice(t) => format!("[{}]", self.head(t)),
            TyKind::Array(t, _) => format!("[{};_]", self.head(t)),
            TyKind::Param(p) => p.name.to_string(),
            _ => format!("{t}"),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>, env: usize) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.types.get(&t) {
            return *x;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(J::Null);
        self.type_list.push((t, env));
        let tcx = self.tcx;
        let disp = s(format!("{t}"));
        let j = match *t.kind() {
            TyKind::Adt(a, args) => {
                let p = self.name(a.did());
                let aa: Vec<J> = args
                    .iter()
                    .filter_map(|g| match g.kind() {
                        ty::GenericArgKind::Type(t) => Some(i(self.ty(t, env))),
                        ty::GenericArgKind::Const(c) => Some(s(format!("{c}"))),
                        _ => None,
                    })
                    .collect();
                let mut o = vec![("k", s("adt")), ("p", s(p.clone())), ("a", J::A(aa)), ("s", disp)];
                o.push(("kind", s(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" })));
                o.push(("box", J::B(a.is_box())));
                let expand = a.is_enum() || a.is_struct();
                if expand {
                    let discrs: Vec<u128> = if a.is_enum() { a.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
                    let mut vs = vec![];
                    for (k, v) in a.variants().iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.envs[env], ft)
                                .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                            let fid = self.ty(ft, env);
                            fs.push(J::O(vec![
                                ("n", s(f.name.as_str())),
                                ("t", i(fid)),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![
                            ("n", s(v.name.as_str())),
                            ("d", J::I(discrs[k] as i128)),
                            ("f", J::A(fs)),
                        ]));
                    }
                    o.push(("v", J::A(vs)));
                }
                J::O(o)
            }
            TyKind::Ref(_, inner, m) => {
                let x = self.ty(inner, env);
                J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", i(x)), ("s", disp)])
            }
            TyKind::RawPtr(inner, m) => {
                let x = self.ty(inner, env);
                J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", i(x)), ("s", disp)])
            }
            TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| i(self.ty(t, env))).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v)), ("s", disp)])
            }
            TyKind::Slice(e) => {
                let x = self.ty(e, env);
                J::O(vec![("k", s("slice")), ("t", i(x)), ("s", disp)])
            }
            TyKind::Array(e, n) => {
                let x = self.ty(e, env);
                let len = n.try_to_target_usize(tcx);
                J::O(vec![("k", s("array")), ("t", i(x)), ("n", len.map_or(J::Null, |n| J::I(n as i128))), ("s", disp)])
            }
            TyKind::Closure(def, args) => {
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| i(self.ty(t, env))).collect();
                let nm = self.name(def);
                let kind = format!("{:?}", args.as_closure().kind());
                J::O(vec![("k", s("closure")), ("p", s(nm)), ("a", J::A(ups)), ("ck", s(kind)), ("s", disp)])
            }
            TyKind::FnDef(def, _) => {
                let nm = self.name(def);
                J::O(vec![("k", s("fndef")), ("p", s(nm)), ("s", disp)])
            }
            TyKind::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("s", disp)]),
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str())), ("i", i(p.index as usize)), ("s", disp)]),
            TyKind::Bool => J::O(vec![("k", s("bool")), ("s", disp)]),
            TyKind::Char => J::O(vec![("k", s("char")), ("s", disp)]),
            TyKind::Int(x) => J::O(vec![("k", s("int")), ("n", s(x.name_str())), ("s", disp)]),
            TyKind::Uint(x) => J::O(vec![("k", s("uint")), ("n", s(x.name_str())), ("s", disp)]),
            TyKind::Str => J::O(vec![("k", s("str")), ("s", disp)]),
            TyKind::Never => J::O(vec![("k", s("never")), ("s", disp)]),
            TyKind::Alias(..) => J::O(vec![("k", s("alias")), ("s", disp)]),
            TyKind::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", disp)]),
            _ => J::O(vec![("k", s("other")), ("s", disp)]),
        };
        self.type_out[id] = j;
        id
    }

    fn env(&mut self, def: DefId) -> usize {
        let e = TypingEnv::post_analysis(self.tcx, def);
        if let Some(k) = self.envs.iter().position(|x| *x == e) {
            return k;
        }
        self.envs.push(e);
        let ps: Vec<J> = e.param_env.caller_bounds().map(|p| s(format!("{p}"))).collect();
        self.env_descr.push(J::A(ps));
        self.envs.len() - 1
    }

    fn inst(&mut self, inst: Instance<'tcx>, env: usize, root: bool) -> usize {
        if let Some(x) = self.insts.get(&(inst, env)) {
            return *x;
        }
        let id = self.inst_list.len();
        self.insts.insert((inst, env), id);
        self.inst_list.push((inst, env, root));
        id
    }

    fn roots(&mut self) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        let mut defs: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        defs.sort_by_key(|d| d.local_def_index);
        for ld in defs {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = self.env(def);
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(def, args);
            let id = self.inst(inst, env, true);
            v.push(i(id));
        }
        J::A(v)
    }

    /// For every local function returning an iterator: the resolved step functions of that iterator.
    fn steps(&mut self) -> J {
        let tcx = self.tcx;
        let mut traits = HashMap::new();
        for cr in tcx.crates(()).iter().copied() {
            if !matches!(tcx.crate_name(cr).as_str(), "core") {
                continue;
            }
            for t in tcx.traits(cr) {
                let n = self.name(*t);
                if n.starts_with("core::iter::traits::") {
                    traits.insert(n, *t);
                }
            }
        }
        let wanted = [
            ("next", "core::iter::traits::iterator::Iterator"),
            ("size_hint", "core::iter::traits::iterator::Iterator"),
            ("next_back", "core::iter::traits::double_ended::DoubleEndedIterator"),
            ("len", "core::iter::traits::exact_size::ExactSizeIterator"),
        ];
        let mut v = vec![];
        let mut defs: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        defs.sort_by_key(|d| d.local_def_index);
        for ld in defs {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = self.env(def);
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, def));
            let out = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip().output());
            let out = tcx.erase_and_anonymize_regions(out);
            let out = tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(out)).unwrap_or(out);
            if !matches!(out.kind(), TyKind::Adt(..)) {
                continue;
            }
            let mut o = vec![];
            for (m, t) in wanted {
                let Some(t) = traits.get(t) else { continue };
                let targs = tcx.mk_args(&[out.into()]);
                let (infcx, penv) = rustc_trait_selection::infer::TyCtxtInferExt::infer_ctxt(tcx).build_with_typing_env(self.envs[env]);
                let holds = rustc_trait_selection::infer::InferCtxtExt::type_implements_trait(&infcx, *t, [out], penv).must_apply_modulo_regions();
                if !holds {
                    continue;
                }
                for it in tcx.associated_items(*t).in_definition_order() {
                    if it.is_fn() && it.name().as_str() == m {
                        let c = self.callee(it.def_id, targs, env);
                        o.push((m, c));
                    }
                }
            }
            if o.iter().any(|x| x.0 == "next") {
                let n = self.name(def);
                let t = self.ty(out, env);
                o.push(("fn", s(n)));
                o.push(("ty", i(t)));
                v.push(J::O(o));
            }
        }
        J::A(v)
    }

    fn run(&mut self) {
        while self.inst_out.len() < self.inst_list.len() {
            let (inst, env, root) = self.inst_list[self.inst_out.len()];
            let j = self.instance(inst, env, root);
            self.inst_out.push(j);
        }
    }

    fn stopped(&self, name: &str) -> bool {
        let name = name.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
        self.stop.iter().any(|p| name.starts_with(p))
    }

    fn args_j(&mut self, args: GenericArgsRef<'tcx>, env: usize) -> J {
        J::A(
            args.iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(i(self.ty(t, env))),
                    ty::GenericArgKind::Const(c) => Some(s(format!("{c}"))),
                    _ => None,
                })
                .collect(),
        )
    }

    fn instance(&mut self, inst: Instance<'tcx>, env: usize, root: bool) -> J {
        let tcx = self.tcx;
        let def = inst.def_id();
        let name = self.name(def);
        let args = self.args_j(inst.args, env);
        let mut o = vec![
            ("n", s(name.clone())),
            ("full", s(format!("{inst}"))),
            ("a", args),
            ("env", i(env)),
            ("crate", s(tcx.crate_name(def.krate).as_str())),
            ("root", J::B(root)),
        ];
        // trait item implemented by this def
        if let Some(ti) = tcx.trait_item_of(def) {
            o.push(("trait_item", s(self.name(ti))));
        }
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("in_trait", s(self.name(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let h = self.head(st);
            o.push(("impl_head", s(h)));
        }
        let (kind, has_body) = match inst.def {
            InstanceKind::Item(d) => (if tcx.is_closure_like(d) { "closure" } else { "item" }, true),
            InstanceKind::Intrinsic(_) => ("intrinsic", false),
            InstanceKind::LlvmIntrinsic(_) => ("intrinsic", false),
            InstanceKind::Virtual(..) => ("virtual", false),
            InstanceKind::Shim(ShimKind::VTable(_)) => ("vtable_shim", false),
            InstanceKind::Shim(ShimKind::Reify(..)) => ("reify_shim", false),
            InstanceKind::Shim(ShimKind::FnPtr(..)) => ("fnptr_shim", false),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => ("closure_once_shim", false),
            InstanceKind::Shim(ShimKind::Clone(..)) => ("clone_shim", false),
            InstanceKind::Shim(ShimKind::DropGlue(..)) => ("drop_glue", false),
            InstanceKind::Shim(_) => ("shim", false),
        };
        o.push(("kind", s(kind)));
        o.push(("span", self.span(tcx.def_span(def))));
        if has_body && def.is_local() {
            o.push(("local", J::B(true)));
        }
        if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = inst.def {
            // resolve the closure body itself
            if let TyKind::Closure(_, cargs) = inst.args.type_at(0).kind() {
                let ci = Instance::new_raw(closure, cargs);
                o.push(("closure", i(self.inst(ci, env, false))));
            }
        }
        if has_body && !self.stopped(&name) && tcx.is_mir_available(def) {
            let body = tcx.instance_mir(inst.def);
            let mono = inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.envs[env],
                ty::EarlyBinder::bind(tcx, body.clone()),
            );
            match mono {
                Ok(b) => {
                    let j = self.body(&b, env, def, inst.args);
                    o.push(("body", j));
                }
                Err(_) => o.push(("err", s("normalization"))),
            }
        }
        J::O(o)
    }

    fn const_body(&mut self, c: (DefId, GenericArgsRef<'tcx>, Option<u32>, usize)) -> J {
        let (def, args, promoted, env) = c;
        let tcx = self.tcx;
        let nm = self.name(def);
        let mut o = vec![("n", s(nm)), ("promoted", promoted.map_or(J::Null, |p| i(p as usize))), ("env", i(env))];
        let body: Option<mir::Body<'tcx>> = match promoted {
            Some(p) => Some(tcx.promoted_mir(def)[Promoted::from_u32(p)].clone()),
            None => {
                if tcx.is_mir_available(def) {
                    Some(tcx.mir_for_ctfe(def).clone())
                } else {
                    None
                }
            }
        };
        if let Some(b) = body {
            let r = tcx.try_instantiate_and_normalize_erasing_regions(args, self.envs[env], ty::EarlyBinder::bind(tcx, b));
            if let Ok(b) = r {
                let j = self.body(&b, env, def, args);
                o.push(("body", j));
            }
        }
        J::O(o)
    }

    fn body(&mut self, b: &mir::Body<'tcx>, env: usize, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let locals: Vec<J> = b.local_decls.iter().map(|l| i(self.ty(l.ty, env))).collect();
        let mut blocks = vec![];
        let cx = (env, def, args);
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(J::A(vec![s("="), self.place(*p, b, cx), self.rvalue(r, b, cx), self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(**place, b, cx), i(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(op) => {
                            let op = self.op(op, b, cx);
                            st.push(J::A(vec![s("assume"), op]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push(J::A(vec![s("copynonoverlapping")])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let term = self.term(t, b, cx);
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("c", J::B(bb.is_cleanup))]));
        }
        let names: Vec<J> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(J::A(vec![s(v.name.as_str()), i(p.local.as_usize())]))
                }
                _ => None,
            })
            .collect();
        J::O(vec![
            ("argc", i(b.arg_count)),
            ("spread", b.spread_arg.map_or(J::Null, |l| i(l.as_usize()))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("names", J::A(names)),
        ])
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        i(sm.lookup_char_pos(sp.lo()).line)
    }

    fn place(&mut self, p: Place<'tcx>, b: &mir::Body<'tcx>, cx: (usize, DefId, GenericArgsRef<'tcx>)) -> J {
        let _ = b;
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_usize()), i(self.ty(t, cx.0))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), i(offset as usize), i(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), i(from as usize), i(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, b: &mir::Body<'tcx>, cx: (usize, DefId, GenericArgsRef<'tcx>)) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(*p, b, cx)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(*p, b, cx)]),
            Operand::Constant(c) => self.konst(c.const_, cx),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtc"), s(format!("{r:?}"))]),
        }
    }

    fn konst(&mut self, c: mir::Const<'tcx>, cx: (usize, DefId, GenericArgsRef<'tcx>)) -> J {
        let tcx = self.tcx;
        let env = cx.0;
        let t = c.ty();
        let tid = self.ty(t, env);
        if let TyKind::FnDef(def, fargs) = *t.kind() {
            let fargs = fargs.no_bound_vars().unwrap_or_else(|| fargs.skip_binder());
            return J::A(vec![s("fn"), i(tid), self.callee(def, fargs, env)]);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let k = self.const_id(u.def, u.args, Some(p.as_u32()), env);
                return J::A(vec![s("konst"), i(tid), i(k)]);
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(x) = c.try_eval_scalar_int(tcx, self.envs[env]) {
                let signed = t.is_signed();
                let v = if signed { x.to_int(x.size()) } else { x.to_uint(x.size()) as i128 };
                return J::A(vec![s("int"), i(tid), J::I(v)]);
            }
        }
        match c {
            mir::Const::Unevaluated(u, _) => {
                let nm = self.name(u.def);
                // resolve associated consts
                let (d, a) = match Instance::try_resolve(tcx, self.envs[env], u.def, u.args) {
                    Ok(Some(x)) => (x.def_id(), x.args),
                    _ => (u.def, u.args),
                };
                let k = self.const_id(d, a, None, env);
                J::A(vec![s("konst"), i(tid), i(k), s(nm)])
            }
            mir::Const::Val(v, _) => self.cval(v, t, env, tid),
            mir::Const::Ty(_, k) => J::A(vec![s("tyconst"), i(tid), s(format!("{k}"))]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, env: usize, tid: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            TyKind::Ref(_, inner, _) if inner.is_str() => {
                if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::A(vec![s("str"), i(tid), s(String::from_utf8_lossy(bytes))]);
                }
            }
            TyKind::Adt(..) | TyKind::Tuple(..) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d
                        .fields
                        .iter()
                        .map(|(fv, ft)| {
                            let ftid = self.ty(*ft, env);
                            if ft.is_integral() || ft.is_bool() {
                                if let Some(x) = fv.try_to_scalar_int() {
                                    let v = if ft.is_signed() { x.to_int(x.size()) } else { x.to_uint(x.size()) as i128 };
                                    return J::A(vec![s("int"), i(ftid), J::I(v)]);
                                }
                            }
                            self.cval(*fv, *ft, env, ftid)
                        })
                        .collect();
                    return J::A(vec![s("agg"), i(tid), d.variant.map_or(J::Null, |v| i(v.as_usize())), J::A(fs)]);
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            if let TyKind::FnDef(def, fargs) = *t.kind() {
                let fargs = fargs.no_bound_vars().unwrap_or_else(|| fargs.skip_binder());
                return J::A(vec![s("fn"), i(tid), self.callee(def, fargs, env)]);
            }
            return J::A(vec![s("zst"), i(tid)]);
        }
        J::A(vec![s("opaque"), i(tid), s(format!("{v:?}"))])
    }

    fn const_id(&mut self, def: DefId, args: GenericArgsRef<'tcx>, p: Option<u32>, env: usize) -> usize {
        let key = (def, args, p, env);
        if let Some(k) = self.consts.get(&key) {
            return *k;
        }
        let k = self.const_list.len();
        self.consts.insert(key, k);
        self.const_list.push(key);
        k
    }

    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, env: usize) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let nm = self.name(def);
        let aj = self.args_j(args, env);
        let mut o = vec![("n", s(nm)), ("a", aj)];
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("in_trait", s(self.name(tr))));
        }
        let r = match tcx.def_kind(def) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                Instance::try_resolve(tcx, self.envs[env], def, args).ok().flatten()
            }
            _ => None,
        };
        match tcx.def_kind(def) {
            DefKind::Ctor(of, _) => {
                o.push(("ctor", s(format!("{of:?}"))));
                // variant index
                let parent = tcx.parent(def);
                if let hir::def::CtorOf::Variant = of {
                    let en = tcx.parent(parent);
                    let adt = tcx.adt_def(en);
                    o.push(("variant", i(adt.variant_index_with_ctor_id(def).as_usize())));
                }
                let ft = tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
                let ft = tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                o.push(("out", i(self.ty(ft, env))));
            }
            _ => {}
        }
        if let Some(inst) = r {
            o.push(("i", i(self.inst(inst, env, false))));
        }
        J::O(o)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &mir::Body<'tcx>, cx: (usize, DefId, GenericArgsRef<'tcx>)) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, b, cx)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), self.op(o, b, cx), n.map_or(J::Null, |x| J::I(x as i128))])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "&",
                    BorrowKind::Fake(_) => "&fake",
                    BorrowKind::Mut { .. } => "&mut",
                    #[allow(unreachable_patterns)]
                    _ => "&mut",
                };
                J::A(vec![s(m), self.place(*p, b, cx)])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s(if m.is_mut() { "reborrowmut" } else { "reborrow" }), self.place(*p, b, cx)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(*p, b, cx)]),
            Rvalue::Cast(k, o, t) => {
                let tid = self.ty(*t, cx.0);
                let from = o.ty(&b.local_decls, self.tcx);
                let fid = self.ty(from, cx.0);
                // closure -> fn pointer and fn item -> fn pointer need the instance
                let mut extra = J::Null;
                if let TyKind::Closure(d, a) = *from.kind() {
                    let inst = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                    let raw = Instance::new_raw(d, a);
                    let _ = inst;
                    extra = i(self.inst(raw, cx.0, false));
                }
                J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o, b, cx), i(tid), i(fid), extra])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&b.local_decls, self.tcx);
                let tid = self.ty(t, cx.0);
                J::A(vec![s("bin"), s(format!("{op:?}")), self.op(&ab.0, b, cx), self.op(&ab.1, b, cx), i(tid)])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&b.local_decls, self.tcx);
                let tid = self.ty(t, cx.0);
                J::A(vec![s("un"), s(format!("{op:?}")), self.op(o, b, cx), i(tid)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let tid = self.ty(t, cx.0);
                J::A(vec![s("discr"), self.place(*p, b, cx), i(tid)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, b, cx)).collect();
                let t = r.ty(&b.local_decls, self.tcx);
                let tid = self.ty(t, cx.0);
                let (kind, var, extra) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null, J::Null),
                    AggregateKind::Tuple => ("tuple", J::Null, J::Null),
                    AggregateKind::Adt(_, v, _, _, _) => ("adt", i(v.as_usize()), J::Null),
                    AggregateKind::Closure(d, a) => {
                        let raw = Instance::new_raw(*d, a);
                        ("closure", J::Null, i(self.inst(raw, cx.0, false)))
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", J::Null, J::Null),
                    _ => ("other", J::Null, J::Null),
                };
                J::A(vec![s("agg"), s(kind), var, i(tid), J::A(v), extra])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(*p, b, cx)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.name(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o, b, cx)]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(b.as_usize()),
            _ => J::Null,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &mir::Body<'tcx>, cx: (usize, DefId, GenericArgsRef<'tcx>)) -> J {
        let line = self.line(t.source_info.span);
        let mut v = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![s("goto"), i(target.as_usize())],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&b.local_decls, self.tcx);
                let size = if ty.is_bool() { 8 } else { 0 };
                let _ = size;
                let tid = self.ty(ty, cx.0);
                let arms: Vec<J> = targets
                    .iter()
                    .map(|(val, bb)| {
                        // sign-extend for signed discriminants
                        let vv = match ty.kind() {
                            TyKind::Int(it) => {
                                let bits = it.bit_width().unwrap_or(64);
                                let sh = 128 - bits as u32;
                                ((val << sh) as i128) >> sh
                            }
                            _ => val as i128,
                        };
                        J::A(vec![J::I(vv), i(bb.as_usize())])
                    })
                    .collect();
                vec![s("switch"), self.op(discr, b, cx), J::A(arms), i(targets.otherwise().as_usize()), i(tid)]
            }
            TerminatorKind::Return => vec![s("ret")],
            TerminatorKind::Unreachable => vec![s("unreachable")],
            TerminatorKind::UnwindResume => vec![s("resume")],
            TerminatorKind::UnwindTerminate(_) => vec![s("terminate")],
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pt = place.ty(&b.local_decls, self.tcx).ty;
                let tid = self.ty(pt, cx.0);
                vec![s("drop"), self.place(*place, b, cx), i(target.as_usize()), self.unwind(unwind), i(tid)]
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let a: Vec<J> = args.iter().map(|o| self.op(&o.node, b, cx)).collect();
                let f = self.op(func, b, cx);
                vec![
                    s("call"),
                    f,
                    J::A(a),
                    self.place(*destination, b, cx),
                    target.map_or(J::Null, |t| i(t.as_usize())),
                    self.unwind(unwind),
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.op(cond, b, cx);
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                    AssertKind::DivisionByZero(_) => "div0".into(),
                    AssertKind::RemainderByZero(_) => "rem0".into(),
                    _ => "other".into(),
                };
                vec![s("assert"), c, J::B(*expected), s(m), i(target.as_usize()), self.unwind(unwind)]
            }
            TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), i(real_target.as_usize())],
            TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), i(real_target.as_usize())],
            other => vec![s("other"), s(format!("{other:?}"))],
        };
        v.push(line);
        J::A(v)
    }

    // ---------------------------------------------------------------- items
    fn items(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut statics = vec![];
        let mut others = vec![];
        let mut macros = vec![];
        let mut defs: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        defs.sort_by_key(|d| d.local_def_index);
        for ld in defs {
            let def = ld.to_def_id();
            let kind = tcx.def_kind(def);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let env = self.env(def);
                    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                    let sigs = sig.skip_binder();
                    let ins: Vec<J> = sigs.inputs().iter().map(|t| i(self.ty(*t, env))).collect();
                    let out = self.ty(sigs.output(), env);
                    let vis = tcx.effective_visibilities(()).is_exported(ld);
                    let derived = tcx.impl_of_assoc(def).is_some_and(|im| tcx.is_automatically_derived(im));
                    let mut o = vec![
                        ("n", s(self.name(def))),
                        ("exported", J::B(vis)),
                        ("pub", J::B(tcx.visibility(def).is_public())),
                        ("unsafe", J::B(sigs.safety().is_unsafe())),
                        ("derived", J::B(derived)),
                        ("in", J::A(ins)),
                        ("out", i(out)),
                        ("span", self.span(tcx.def_span(def))),
                        ("env", i(env)),
                        ("sig", s(format!("{sig}"))),
                    ];
                    if let Some(ti) = tcx.trait_item_of(def) {
                        o.push(("trait_item", s(self.name(ti))));
                    }
                    if let Some(im) = tcx.impl_of_assoc(def) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("impl_self", i(self.ty(st, env))));
                    }
                    fns.push(J::O(o));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let env = self.env(def);
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let tid = self.ty(t, env);
                    adts.push(J::O(vec![
                        ("n", s(self.name(def))),
                        ("t", i(tid)),
                        ("exported", J::B(tcx.effective_visibilities(()).is_exported(ld))),
                        ("span", self.span(tcx.def_span(def))),
                        ("drop", J::B(tcx.adt_def(def).has_dtor(tcx))),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let env = self.env(def);
                    let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let tid = self.ty(st, env);
                    let mut o = vec![
                        ("n", s(self.name(def))),
                        ("self", i(tid)),
                        ("derived", J::B(tcx.is_automatically_derived(def))),
                        ("span", self.span(tcx.def_span(def))),
                    ];
                    if of_trait {
                        let h = tcx.impl_trait_header(def);
                        let tr = h.trait_ref.skip_binder();
                        o.push(("trait", s(self.name(tr.def_id))));
                        o.push(("unsafe", J::B(h.safety.is_unsafe())));
                        o.push(("neg", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))));
                    }
                    let ms: Vec<J> = tcx.associated_items(def).in_definition_order().map(|a| s(a.name().as_str())).collect();
                    o.push(("items", J::A(ms)));
                    impls.push(J::O(o));
                }
                DefKind::Static { .. } => {
                    let env = self.env(def);
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let m = tcx.static_mutability(def).is_some_and(|m| m.is_mut());
                    statics.push(J::O(vec![
                        ("n", s(self.name(def))),
                        ("t", i(self.ty(t, env))),
                        ("mut", J::B(m)),
                        ("tls", J::B(tcx.is_thread_local_static(def))),
                        ("freeze", J::B(t.is_freeze(tcx, self.envs[env]))),
                        ("span", self.span(tcx.def_span(def))),
                    ]));
                }
                DefKind::Macro(_) => macros.push(s(self.name(def))),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let nm = self.name(def);
                    let env = self.env(def);
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    others.push(J::O(vec![
                        ("k", s("const")),
                        ("n", s(nm)),
                        ("freeze", J::B(t.is_freeze(tcx, self.envs[env]))),
                        ("t", i(self.ty(t, env))),
                        ("span", self.span(tcx.def_span(def))),
                    ]));
                }
                DefKind::ExternCrate => {
                    others.push(J::O(vec![("k", s("extern_crate")), ("n", s(self.name(def))), ("span", self.span(tcx.def_span(def)))]));
                }
                DefKind::ForeignMod => {
                    others.push(J::O(vec![("k", s("foreign_mod")), ("n", s("extern")), ("span", self.span(tcx.def_span(def)))]));
                }
                _ => {}
            }
        }
        let mut uv = UnsafeVisitor { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let uns: Vec<J> = uv
            .out
            .iter()
            .map(|(owner, sp, what)| {
                let n = self.name(*owner);
                J::O(vec![("in", s(n)), ("span", self.span(*sp)), ("what", s(*what))])
            })
            .collect();
        let crates: Vec<J> = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c).as_str())).collect();
        J::O(vec![
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("others", J::A(others)),
            ("macros", J::A(macros)),
            ("unsafe", J::A(uns)),
            ("crates", J::A(crates)),
        ])
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(DefId, Span, &'static str)>,
}
impl<'tcx> Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            let owner = b.hir_id.owner.to_def_id();
            self.out.push((owner, b.span, "unsafe block"));
        }
        intravisit::walk_block(self, b);
    }
}
