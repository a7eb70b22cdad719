//! Facts extractor: a rustc driver that type-checks /repo's crate under the flags of one
//! configuration and writes what it resolved (public API, signatures, layouts, trait impls,
//! per-body resolved callees with their required target features, statics, asm) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::{CtorKind, DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum J {
    S(String),
    I(i128),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
    Null,
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => o.push_str(&esc(s)),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push_str(&esc(k));
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n")
                    }
                    o.push_str(&esc(k));
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}

struct Cb {
    out: String,
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let l = sm.lookup_char_pos(sp.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn layout_facts<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>) -> J {
    let env = TypingEnv::fully_monomorphized();
    match tcx.layout_of(env.as_query_input(t)) {
        Ok(l) => {
            let mut offs = vec![];
            match &l.fields {
                rustc_abi::FieldsShape::Arbitrary { offsets, .. } => {
                    for o in offs_iter(offsets.iter().map(|o| o.bytes())) {
                        offs.push(J::I(o as i128))
                    }
                }
                rustc_abi::FieldsShape::Union(n) => {
                    for _ in 0..n.get() {
                        offs.push(J::I(0))
                    }
                }
                _ => {}
            }
            J::O(vec![
                ("size", J::I(l.size.bytes() as i128)),
                ("align", J::I(l.align.abi.bytes() as i128)),
                ("offsets", J::A(offs)),
            ])
        }
        Err(_) => J::Null,
    }
}
fn offs_iter(i: impl Iterator<Item = u64>) -> Vec<u64> {
    i.collect()
}

fn sig_facts<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
    let sig = tcx.liberate_late_bound_regions(d, sig);
    let env = TypingEnv::post_analysis(tcx, d);
    let norm = |t: ty::Ty<'tcx>| -> ty::Ty<'tcx> {
        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(t)).unwrap_or(t)
    };
    let ins: Vec<J> = sig
        .inputs()
        .iter()
        .map(|t| with_no_trimmed_paths!(s(norm(*t))))
        .collect();
    let out = with_no_trimmed_paths!(s(norm(sig.output())));
    let g = tcx.generics_of(d);
    let mut gens = vec![];
    let mut cur = Some(g);
    while let Some(g) = cur {
        for p in &g.own_params {
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gens.push(s(p.name));
            }
        }
        cur = g.parent.map(|p| tcx.generics_of(p));
    }
    J::O(vec![
        ("inputs", J::A(ins)),
        ("output", out),
        ("unsafe", J::B(!sig.safety().is_safe())),
        ("generics", J::A(gens)),
    ])
}

fn collect<'tcx>(
    tcx: TyCtxt<'tcx>,
    m: DefId,
    prefix: &str,
    seen: &mut std::collections::HashSet<(String, DefId)>,
    out: &mut BTreeMap<String, J>,
) {
    let mut kids: Vec<(String, DefKind, DefId)> = vec![];
    if let Some(lm) = m.as_local() {
        for c in tcx.module_children_local(lm) {
            if let (true, Res::Def(k, d)) = (c.vis.is_public(), c.res) {
                kids.push((c.ident.name.to_string(), k, d));
            }
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Use | DefKind::Impl { .. } | DefKind::GlobalAsm | DefKind::ForeignMod | DefKind::ExternCrate) { continue; }
            if tcx.opt_parent(d) == Some(m) && tcx.visibility(d).is_public() {
                if let Some(n) = tcx.opt_item_name(d) { kids.push((n.to_string(), k, d)); }
            }
        }
    } else {
        for c in tcx.module_children(m) {
            if let (true, Res::Def(k, d)) = (c.vis.is_public(), c.res) {
                kids.push((c.ident.name.to_string(), k, d));
            }
        }
    }
    for (nm, kind, d) in kids {
        let name = format!("{}{}", prefix, nm);
        if !seen.insert((format!("{:?}{}", kind, name), d)) {
            continue;
        }
        match kind {
            DefKind::Mod => {
                if prefix.matches("::").count() < 3 {
                    collect(tcx, d, &format!("{}::", name), seen, out)
                }
            }
            DefKind::Fn => {
                out.insert(
                    format!("fn {}", name),
                    J::O(vec![("kind", s("fn")), ("def", s(path(tcx, d))), ("sig", sig_facts(tcx, d)), ("loc", s(loc(tcx, tcx.def_span(d))))]),
                );
            }
            DefKind::Struct | DefKind::Union | DefKind::Enum => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let adt = t.ty_adt_def().unwrap();
                let gens = tcx.generics_of(d).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
                let mut fields = vec![];
                if adt.is_struct() || adt.is_union() {
                    for f in adt.non_enum_variant().fields.iter() {
                        fields.push(J::O(vec![
                            ("name", s(f.name)),
                            ("ty", with_no_trimmed_paths!(s(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                } else {
                    for (i, v) in adt.variants().iter_enumerated() {
                        let disc = adt.discriminant_for_variant(tcx, i);
                        fields.push(J::O(vec![("name", s(v.name)), ("ty", s("variant")), ("pub", J::B(true)), ("disc", s(disc.val))]));
                    }
                }
                out.insert(
                    format!("type {}", name),
                    J::O(vec![
                        ("kind", s(if adt.is_struct() { "struct" } else if adt.is_union() { "union" } else { "enum" })),
                        ("def", s(path(tcx, d))),
                        ("repr", s(format!("{:?}", adt.repr()))),
                        ("layout", if gens == 0 { layout_facts(tcx, t) } else { J::Null }),
                        ("fields", J::A(fields)),
                    ]),
                );
                // inherent impls
                for imp in tcx.inherent_impls(d) {
                    for it in tcx.associated_items(*imp).in_definition_order() {
                        if !tcx.visibility(it.def_id).is_public() {
                            continue;
                        }
                        let nm = format!("{}::{}", name, it.name());
                        match tcx.def_kind(it.def_id) {
                            DefKind::AssocFn => {
                                out.insert(
                                    format!("fn {}", nm),
                                    J::O(vec![("kind", s("method")), ("def", s(path(tcx, it.def_id))), ("sig", sig_facts(tcx, it.def_id)), ("loc", s(loc(tcx, tcx.def_span(it.def_id))))]),
                                );
                            }
                            k => {
                                out.insert(format!("assoc {}", nm), J::O(vec![("kind", s(format!("{:?}", k))), ("ty", with_no_trimmed_paths!(s(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip())))]));
                            }
                        }
                    }
                }
            }
            DefKind::Const { .. } | DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                out.insert(
                    format!("const {}", name),
                    J::O(vec![("kind", s("const")), ("ty", with_no_trimmed_paths!(s(t))), ("value", const_bytes(tcx, d)), ("loc", s(loc(tcx, tcx.def_span(d))))]),
                );
            }
            DefKind::TyAlias => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                out.insert(format!("alias {}", name), J::O(vec![("kind", s("alias")), ("ty", with_no_trimmed_paths!(s(t)))]));
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(s(it.name()));
                }
                out.insert(format!("trait {}", name), J::O(vec![("kind", s("trait")), ("items", J::A(items))]));
            }
            DefKind::Ctor(_, CtorKind::Fn | CtorKind::Const) => {}
            k => {
                out.insert(format!("other {}", name), J::O(vec![("kind", s(format!("{:?}", k)))]));
            }
        }
    }
}

fn const_bytes<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
        return J::Null;
    }
    let Ok(v) = tcx.const_eval_poly(d) else { return s("<error>") };
    match v {
        mir::ConstValue::Scalar(sc) => match sc.try_to_scalar_int() {
            Ok(i) => J::O(vec![("bits", s(format!("{:x}", i.to_bits_unchecked()))), ("size", J::I(i.size().bytes() as i128))]),
            Err(_) => s("<ptr>"),
        },
        mir::ConstValue::ZeroSized => s("<zst>"),
        mir::ConstValue::Indirect { alloc_id, offset } => {
            let a = tcx.global_alloc(alloc_id).unwrap_memory();
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::fully_monomorphized();
            let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return J::Null };
            let st = offset.bytes() as usize;
            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l.size.bytes() as usize);
            let mut h = String::new();
            for x in b {
                let _ = write!(h, "{:02x}", x);
            }
            J::O(vec![("bytes", s(h))])
        }
        _ => s("<other>"),
    }
}

fn features_of(tcx: TyCtxt<'_>, d: DefId) -> Vec<String> {
    match tcx.def_kind(d) {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
            tcx.codegen_fn_attrs(d).target_features.iter().map(|f| f.name.to_string()).collect()
        }
        _ => vec![],
    }
}

fn body_facts<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId) -> J {
    let d = ld.to_def_id();
    let body = tcx.optimized_mir(d);
    let env = TypingEnv::post_analysis(tcx, d);
    let own: BTreeSet<String> = features_of(tcx, d).into_iter().collect();
    let enabled: BTreeSet<String> = tcx.sess.internal_target_features.iter().map(|f| f.to_string()).chain(own.iter().cloned()).collect();
    let mut calls = vec![];
    let mut statics = vec![];
    let mut asm = vec![];
    let mut asserts = vec![];
    let mut see_const = |c: &mir::ConstOperand<'tcx>, statics: &mut Vec<J>| {
        if let mir::Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let Some(ga) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                if let mir::interpret::GlobalAlloc::Static(sd) = ga {
                    statics.push(J::O(vec![
                        ("static", s(path(tcx, sd))),
                        ("mut", J::B(tcx.is_mutable_static(sd))),
                        ("thread_local", J::B(tcx.is_thread_local_static(sd))),
                        ("freeze", J::B(tcx.type_of(sd).instantiate_identity().skip_norm_wip().is_freeze(tcx, env))),
                        ("loc", s(loc(tcx, c.span))),
                    ]));
                }
            }
        }
    };
    struct V<'a, 'tcx> {
        f: &'a mut dyn FnMut(&mir::ConstOperand<'tcx>),
        fns: Vec<(ty::Ty<'tcx>, rustc_span::Span)>,
        tls: Vec<DefId>,
    }
    impl<'a, 'tcx> mir::visit::Visitor<'tcx> for V<'a, 'tcx> {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: mir::Location) {
            (self.f)(c);
            let t = c.const_.ty();
            if let ty::FnDef(..) = t.kind() {
                self.fns.push((t, c.span));
            }
        }
        fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, l: mir::Location) {
            if let mir::Rvalue::ThreadLocalRef(d) = r {
                self.tls.push(*d);
            }
            self.super_rvalue(r, l);
        }
    }
    let mut st = vec![];
    let mut f = |c: &mir::ConstOperand<'tcx>| see_const(c, &mut st);
    let mut v = V { f: &mut f, fns: vec![], tls: vec![] };
    mir::visit::Visitor::visit_body(&mut v, body);
    let fns = v.fns;
    let tls = v.tls;
    statics.extend(st);
    for t in tls {
        statics.push(J::O(vec![("static", s(path(tcx, t))), ("mut", J::B(true)), ("thread_local", J::B(true)), ("freeze", J::B(false)), ("loc", s("?"))]));
    }
    for (t, sp) in fns {
        let ty::FnDef(cd, args) = t.kind() else { continue };
        let args = args.no_bound_vars().expect("fn item args");
        let cd = *cd;
        let mut rd = cd;
        let mut how = "direct";
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, cd, args) {
            rd = i.def_id();
        } else {
            how = "generic";
        }
        let req = features_of(tcx, rd);
        let missing: Vec<J> = req.iter().filter(|f| !enabled.contains(*f)).map(|f| s(f)).collect();
        calls.push(J::O(vec![
            ("callee", s(path(tcx, rd))),
            ("local", J::B(rd.is_local())),
            ("how", s(how)),
            ("foreign", J::B(tcx.is_foreign_item(rd))),
            ("req", J::A(req.iter().map(|f| s(f)).collect())),
            ("missing", J::A(missing)),
            ("loc", s(loc(tcx, sp))),
        ]));
    }
    let mut blocks = 0;
    for bb in body.basic_blocks.iter() {
        blocks += 1;
        match &bb.terminator().kind {
            mir::TerminatorKind::InlineAsm { .. } => asm.push(s(loc(tcx, bb.terminator().source_info.span))),
            mir::TerminatorKind::Assert { msg, .. } => asserts.push(s(format!("{:?}@{}", std::mem::discriminant(&**msg), loc(tcx, bb.terminator().source_info.span)))),
            mir::TerminatorKind::Call { func, .. } => {
                let ft = func.ty(&body.local_decls, tcx);
                if !matches!(ft.kind(), ty::FnDef(..)) {
                    calls.push(J::O(vec![
                        ("callee", with_no_trimmed_paths!(s(format!("<indirect {}>", ft)))),
                        ("local", J::B(false)),
                        ("how", s("indirect")),
                        ("foreign", J::B(false)),
                        ("req", J::A(vec![])),
                        ("missing", J::A(vec![])),
                        ("loc", s(loc(tcx, bb.terminator().source_info.span))),
                    ]));
                }
            }
            _ => {}
        }
    }
    J::O(vec![
        ("kind", s(format!("{:?}", tcx.def_kind(d)))),
        ("vis", s(format!("{:?}", tcx.visibility(d)))),
        ("own_features", J::A(own.iter().map(|f| s(f)).collect())),
        ("calls", J::A(calls)),
        ("statics", J::A(statics)),
        ("asm", J::A(asm)),
        ("asserts", J::A(asserts)),
        ("blocks", J::I(blocks)),
        ("loc", s(loc(tcx, tcx.def_span(d)))),
    ])
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut api = BTreeMap::new();
        let mut seen = std::collections::HashSet::new();
        collect(tcx, rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), "", &mut seen, &mut api);
        let mut impls = BTreeMap::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(ld) {
                let tr = tcx.impl_trait_ref(ld).instantiate_identity().skip_norm_wip();
                let mut items = vec![];
                for it in tcx.associated_items(ld.to_def_id()).in_definition_order() {
                    if tcx.def_kind(it.def_id) == DefKind::AssocFn {
                        items.push(J::O(vec![("name", s(it.name())), ("def", s(path(tcx, it.def_id))), ("sig", sig_facts(tcx, it.def_id)), ("loc", s(loc(tcx, tcx.def_span(it.def_id))))]));
                    }
                }
                let key = with_no_trimmed_paths!(format!("{}", tr));
                let gens: Vec<J> = tcx.generics_of(ld).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| s(p.name)).collect();
                impls.insert(key, J::O(vec![
                    ("trait", with_no_trimmed_paths!(s(path(tcx, tr.def_id)))),
                    ("self", with_no_trimmed_paths!(s(tr.self_ty()))),
                    ("args", J::A(tr.args.iter().skip(1).filter(|a| a.as_region().is_none()).map(|a| with_no_trimmed_paths!(s(a))).collect())),
                    ("generics", J::A(gens)),
                    ("fns", J::A(items)),
                    ("loc", s(loc(tcx, tcx.def_span(ld)))),
                ]));
            }
        }
        let mut bodies = BTreeMap::new();
        let mut statics = BTreeMap::new();
        for ld in tcx.mir_keys(()).iter() {
            match tcx.def_kind(*ld) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(ld.to_def_id()) { continue; }
                    let mut k = path(tcx, ld.to_def_id());
                    while bodies.contains_key(&k) { k.push('\''); }
                    bodies.insert(k, body_facts(tcx, *ld));
                }
                DefKind::Static { .. } => {
                    let d = ld.to_def_id();
                    let env = TypingEnv::fully_monomorphized();
                    statics.insert(path(tcx, d), J::O(vec![
                        ("mut", J::B(tcx.is_mutable_static(d))),
                        ("thread_local", J::B(tcx.is_thread_local_static(d))),
                        ("freeze", J::B(tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, env))),
                        ("loc", s(loc(tcx, tcx.def_span(d)))),
                    ]));
                }
                _ => {}
            }
        }
        // private and public constants, with evaluated bytes
        let mut consts = BTreeMap::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Const { .. } = tcx.def_kind(ld) {
                let d = ld.to_def_id();
                if tcx.generics_of(d).count() > 0 { continue; }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut k = path(tcx, d);
                while consts.contains_key(&k) { k.push('\''); }
                consts.insert(k, J::O(vec![("ty", with_no_trimmed_paths!(s(t))), ("value", const_bytes(tcx, d)), ("loc", s(loc(tcx, tcx.def_span(d))))]));
            }
        }
        let mut feats: Vec<String> = tcx.sess.internal_target_features.iter().map(|f| f.to_string()).collect();
        feats.sort();
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("target_features", J::A(feats.iter().map(|f| s(f)).collect())),
            ("api", J::M(api)),
            ("impls", J::M(impls)),
            ("bodies", J::M(bodies)),
            ("statics", J::M(statics)),
            ("consts", J::M(consts)),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    match std::env::var("DXM_FACTS_OUT") {
        Ok(out) if name == "directx_math" => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
        _ => {
            struct N;
            impl rustc_driver::Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N)
        }
    }
}
