//! Naming, types and the per-crate walk.
use crate::body::{Cx, Arg};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One function to be printed: its definition and the generic arguments of the
/// definition in terms of the generics of `env_def`.
#[derive(Clone, Copy, Debug)]
pub struct Unit<'tcx> {
    pub def: LocalDefId,
    pub env_def: DefId,
    pub args: GenericArgsRef<'tcx>,
}

pub struct Crate<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub adts: Vec<DefId>,
    pub adt_names: HashMap<DefId, String>,
    pub units: Vec<(String, Unit<'tcx>)>,
    pub by_def: HashMap<DefId, Vec<usize>>,
    pub contracted: HashSet<String>,
    pub iter_trait: DefId,
    pub intoiter_trait: DefId,
    pub item_def: DefId,
}

pub const KEYWORDS: &[&str] = &[
    "spec", "proof", "exec", "open", "closed", "ghost", "tracked", "requires", "ensures",
    "invariant", "decreases", "assert", "assume", "forall", "exists", "choose", "by", "via",
    "when", "int", "nat", "final", "is", "has", "matches", "returns", "recommends", "opens_invariants",
    "broadcast", "group", "axiom", "uninterp", "reveal", "hide", "global", "layout", "old", "implies",
];

impl<'tcx> Crate<'tcx> {
    pub fn trait_path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    /// Short name of a type used inside mangled names.
    pub fn tname(&self, ty: Ty<'tcx>) -> String {
        match ty.kind() {
            ty::Adt(a, _) => self
                .adt_names
                .get(&a.did())
                .cloned()
                .unwrap_or_else(|| self.tcx.item_name(a.did()).to_string()),
            ty::Param(_) => "P".into(),
            ty::Ref(_, t, _) => format!("ref_{}", self.tname(*t)),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Str | ty::Float(_) => ty.to_string(),
            ty::Tuple(ts) => format!("tup{}", ts.len()),
            ty::Array(t, _) => format!("arr_{}", self.tname(*t)),
            _ => "X".into(),
        }
    }

    pub fn mangle_impl_item(&self, impl_def: DefId, name: &str) -> String {
        let tcx = self.tcx;
        if let Some(tr) = tcx.impl_opt_trait_ref(impl_def) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            self.mangle_trait_item(tr, name)
        } else {
            let st = tcx.type_of(impl_def).instantiate_identity().skip_norm_wip();
            format!("{}_{}", self.tname(st), name)
        }
    }

    pub fn mangle_trait_item(&self, tr: ty::TraitRef<'tcx>, name: &str) -> String {
        let tn = self.tcx.item_name(tr.def_id).to_string();
        let mut s = format!("{}_{}", self.tname(tr.self_ty()), tn);
        let args: Vec<Ty<'tcx>> = tr.args.types().skip(1).collect();
        for a in &args {
            if *a != tr.self_ty() {
                s.push('_');
                s.push_str(&self.tname(*a));
            }
        }
        format!("{s}_{name}")
    }

    pub fn is_iter(&self, env: TypingEnv<'tcx>, ty: Ty<'tcx>) -> bool {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(env);
        infcx
            .type_implements_trait(self.iter_trait, [ty], pe)
            .must_apply_modulo_regions()
    }

    pub fn item_ty(&self, env: TypingEnv<'tcx>, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        let p = Ty::new_projection(self.tcx, ty::IsRigid::No, self.item_def, [ty]);
        self.tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(p))
            .ok()
    }

    pub fn is_local_adt(&self, ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::Adt(a, _) if a.did().is_local())
    }

    /// Structural one-way match of an impl-side type against a concrete one.
    pub fn matches(&self, pat: GenericArg<'tcx>, tgt: GenericArg<'tcx>, b: &mut BTreeMap<u32, GenericArg<'tcx>>) -> bool {
        if let (Some(p), Some(t)) = (pat.as_type(), tgt.as_type()) {
            return match (p.kind(), t.kind()) {
                (ty::Param(pp), _) => match b.get(&pp.index) {
                    Some(x) => *x == tgt,
                    None => {
                        b.insert(pp.index, tgt);
                        true
                    }
                },
                (ty::Adt(a, aa), ty::Adt(c, cc)) => {
                    a.did() == c.did() && aa.iter().zip(cc.iter()).all(|(x, y)| self.matches(x, y, b))
                }
                (ty::Ref(_, x, m), ty::Ref(_, y, n)) => {
                    m == n && self.matches((*x).into(), (*y).into(), b)
                }
                (ty::Tuple(x), ty::Tuple(y)) => {
                    x.len() == y.len()
                        && x.iter().zip(y.iter()).all(|(x, y)| self.matches(x.into(), y.into(), b))
                }
                _ => p == t,
            };
        }
        true
    }

    /// Finds the local impl of `trait_def` for the given trait args.
    pub fn find_impl(&self, trait_def: DefId, targs: &[GenericArg<'tcx>], env: TypingEnv<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let mut best: Option<(DefId, GenericArgsRef<'tcx>, usize)> = None;
        for im in tcx.all_impls(trait_def) {
            if !im.is_local() {
                continue;
            }
            let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let mut b = BTreeMap::new();
            let n = tr.args.len();
            if targs.len() < n {
                continue;
            }
            if !(0..n).all(|i| self.matches(tr.args[i], targs[i], &mut b)) {
                continue;
            }
            // an impl over a bare `I: Iterator` only applies to iterators
            let gens = tcx.generics_of(im);
            let args = ty::GenericArgs::for_item(tcx, im, |p, _| match b.get(&p.index) {
                Some(a) => *a,
                None => match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => tcx.types.unit.into(),
                },
            });
            let ok = tcx.clauses_of(im).instantiate(tcx, args).clauses.iter().all(|p| {
                if let ty::ClauseKind::Trait(tp) = p.as_ref().skip_normalization().kind().skip_binder() {
                    if tp.trait_ref.def_id == self.iter_trait || tp.trait_ref.def_id == self.intoiter_trait {
                        return self.is_iter(env, tp.trait_ref.self_ty());
                    }
                }
                true
            });
            if !ok {
                continue;
            }
            let params = gens.count();
            if best.as_ref().map_or(true, |x| params < x.2) {
                best = Some((im, args, params));
            }
        }
        best.map(|(a, b, _)| (a, b))
    }
}

pub fn run(tcx: TyCtxt<'_>) -> String {
    let iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator).unwrap();
    let item_def = tcx
        .associated_items(iter_trait)
        .in_definition_order()
        .find(|i| i.name().as_str() == "Item")
        .unwrap()
        .def_id;
    let intoiter_trait = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator).unwrap();
    let mut cr = Crate {
        tcx,
        adts: vec![],
        adt_names: HashMap::new(),
        units: vec![],
        by_def: HashMap::new(),
        contracted: std::env::var("XTRACT_CONTRACTED")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| s.split_whitespace().map(String::from).collect())
            .unwrap_or_default(),
        iter_trait,
        intoiter_trait,
        item_def,
    };
    // ADTs and their names
    let mut count: HashMap<String, usize> = HashMap::new();
    for d in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            cr.adts.push(d.to_def_id());
            *count.entry(tcx.item_name(d.to_def_id()).to_string()).or_default() += 1;
        }
    }
    for d in cr.adts.clone() {
        let base = tcx.item_name(d).to_string();
        let n = if count[&base] > 1 {
            let m = tcx.parent(d);
            format!("{}_{}", tcx.opt_item_name(m).map(|s| s.to_string()).unwrap_or_default(), base)
        } else {
            base
        };
        cr.adt_names.insert(d, n);
    }
    // functions
    let mut units: Vec<(String, Unit<'_>)> = vec![];
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let ident = |d: DefId| ty::GenericArgs::identity_for_item(tcx, d);
        match kind {
            DefKind::Fn => {
                units.push((tcx.item_name(did).to_string(), Unit { def: d, env_def: did, args: ident(did) }));
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } => {
                let parent = tcx.parent(did);
                let nm = tcx.item_name(did).to_string();
                match tcx.def_kind(parent) {
                    DefKind::Impl { .. } => {
                        units.push((cr.mangle_impl_item(parent, &nm), Unit { def: d, env_def: did, args: ident(did) }));
                    }
                    DefKind::Trait => {
                        // default method: one copy per local impl that lacks it
                        for im in tcx.all_impls(parent) {
                            if !im.is_local() {
                                continue;
                            }
                            let has = tcx
                                .associated_items(im)
                                .in_definition_order()
                                .any(|i| i.name().as_str() == nm);
                            if has {
                                continue;
                            }
                            let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                            // method's own generics are not supported here
                            if tcx.generics_of(did).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) && tcx.generics_of(did).own_counts().types > 0 {
                                continue;
                            }
                            let args = ty::GenericArgs::for_item(tcx, did, |p, _| {
                                if (p.index as usize) < tr.args.len() {
                                    tr.args[p.index as usize]
                                } else {
                                    tcx.lifetimes.re_erased.into()
                                }
                            });
                            units.push((cr.mangle_trait_item(tr, &nm), Unit { def: d, env_def: im, args }));
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    for (i, (_, u)) in units.iter().enumerate() {
        cr.by_def.entry(u.def.to_def_id()).or_default().push(i);
    }
    cr.units = units;

    let mut out = String::from("{\"adts\":[\n");
    let mut first = true;
    for d in cr.adts.clone() {
        let s = print_adt(&cr, d);
        if !first {
            out.push_str(",\n");
        }
        first = false;
        out.push_str(&s);
    }
    out.push_str("],\n\"derived\":[");
    // which trait impls of local ADTs are derived
    let mut v: Vec<String> = vec![];
    for tr in tcx.all_traits_including_private() {
        let p = tcx.def_path_str(tr);
        if !["std::cmp::PartialEq", "std::clone::Clone", "std::cmp::Eq", "std::hash::Hash", "std::marker::Copy"].contains(&p.as_str()) {
            continue;
        }
        for im in tcx.all_impls(tr) {
            if im.is_local() {
                let t = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                v.push(js(&format!("{}:{}:{}", cr.tname(t.self_ty()), tcx.item_name(tr), tcx.is_builtin_derived(im))));
            }
        }
    }
    v.sort();
    out.push_str(&v.join(","));
    out.push_str("],\n\"fns\":[\n");
    let mut first = true;
    for i in 0..cr.units.len() {
        let (n, u) = cr.units[i].clone();
        let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| print_unit(&cr, &n, u)))
            .unwrap_or_else(|_| format!("{{\"name\":{},\"unsupported\":[\"extractor panicked\"],\"calls\":[],\"loops\":[]}}", js(&n)));
        if !first {
            out.push_str(",\n");
        }
        first = false;
        out.push_str(&s);
    }
    out.push_str("]}\n");
    out
}

fn print_adt<'tcx>(cr: &Crate<'tcx>, d: DefId) -> String {
    let tcx = cr.tcx;
    let def = tcx.adt_def(d);
    let mut cx = Cx::new(cr, TypingEnv::non_body_analysis(tcx, d), tcx.mk_args(&[]), d);
    cx.adt_mode = true;
    let gens = tcx.generics_of(d);
    let mut g: Vec<String> = vec![];
    let mut bounds: Vec<String> = vec![];
    for p in &gens.own_params {
        match p.kind {
            ty::GenericParamDefKind::Lifetime => g.push(p.name.to_string()),
            _ => {
                g.push(p.name.to_string());
                bounds.push(p.name.to_string());
            }
        }
    }
    let gs = if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) };
    let name = &cr.adt_names[&d];
    let mut body = String::new();
    let fields = |cx: &mut Cx<'_, 'tcx>, v: &ty::VariantDef, vis: &str| -> String {
        let tuple = v.ctor_kind() == Some(rustc_hir::def::CtorKind::Fn);
        if v.fields.is_empty() {
            return String::new();
        }
        let fs: Vec<String> = v
            .fields
            .iter()
            .map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ts = cx.ty(t);
                if tuple { format!("{vis}{ts}") } else { format!("{vis}{}: {ts}", f.name) }
            })
            .collect();
        if tuple { format!("({})", fs.join(", ")) } else { format!(" {{ {} }}", fs.join(", ")) }
    };
    if def.is_enum() {
        body.push_str(&format!("pub enum {name}{gs} {{\n"));
        for v in def.variants() {
            let f = fields(&mut cx, v, "");
            body.push_str(&format!("    {}{},\n", v.name, f));
        }
        body.push_str("}\n");
        if g.len() == bounds.len() {
            // what `discriminant_value` gives
            let arm = |v: &ty::VariantDef| if v.ctor_kind() == Some(rustc_hir::def::CtorKind::Fn) { "(..)" } else if v.fields.is_empty() { "" } else { " { .. }" };
            let arms = |suffix: &str| def.discriminants(tcx).map(|(i, d)| { let v = def.variant(i); format!("{name}::{}{} => {}{suffix}", v.name, arm(v), d.val as i64) }).collect::<Vec<_>>().join(", ");
            body.push_str(&format!("pub open spec fn {name}_tag_s{gs}(a: {name}{gs}) -> int {{ match a {{ {} }} }}\n", arms("int")));
            body.push_str(&format!("pub fn {name}_tag{gs}(a: &{name}{gs}) -> (r: isize) ensures r == {name}_tag_s(*a) {{ match a {{ {} }} }}\n", arms("isize")));
        }
    } else {
        let v = def.non_enum_variant();
        let f = fields(&mut cx, v, "pub ");
        if f.starts_with(" {") {
            body.push_str(&format!("pub struct {name}{gs}{f}\n"));
        } else {
            body.push_str(&format!("pub struct {name}{gs}{f};\n"));
        }
    }
    let uns: Vec<String> = cx.unsupported.iter().map(|s| js(s)).collect();
    format!("{{\"name\":{},\"text\":{},\"unsupported\":[{}]}}", js(name), js(&body), uns.join(","))
}

fn print_unit<'tcx>(cr: &Crate<'tcx>, name: &str, u: Unit<'tcx>) -> String {
    let tcx = cr.tcx;
    let did = u.def.to_def_id();
    let env = TypingEnv::non_body_analysis(tcx, u.env_def);
    let mut cx = Cx::new(cr, env, u.args, u.env_def);
    cx.setup_generics(u.env_def);
    let derived = tcx
        .opt_parent(did)
        .map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_builtin_derived(p));
    let f = cx.function(u.def, name);
    let loc = {
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(did);
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    };
    let arr = |v: &Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let loops: Vec<String> = cx
        .loops
        .iter()
        .map(|l| format!("{{\"id\":{},\"kind\":{},\"vars\":{{{}}}}}", l.id, js(&l.kind), l.vars.iter().map(|(a, b)| format!("{}:{}", js(a), js(b))).collect::<Vec<_>>().join(",")))
        .collect();
    let gens: Vec<String> = cx
        .gens
        .iter()
        .map(|(n, b, fin, prim)| format!("{{\"name\":{},\"bounds\":{},\"finite\":{},\"main\":{}}}", js(n), js(b), fin, prim))
        .collect();
    let mut calls: Vec<String> = cx.calls.iter().cloned().collect();
    calls.sort();
    calls.dedup();
    let params: Vec<String> = f.params.iter().map(|(n, t)| format!("[{},{}]", js(n), js(t))).collect();
    format!(
        "{{\"name\":{},\"path\":{},\"loc\":{},\"pub\":{},\"derived\":{},\"generics\":[{}],\"params\":[{}],\"ret\":{},\"body\":{},\"calls\":[{}],\"loops\":[{}],\"inlined\":[{}],\"toit\":[{}],\"notes\":[{}],\"unsupported\":[{}]}}",
        js(name), js(&tcx.def_path_str(did)), js(&loc), tcx.visibility(did).is_public(), derived,
        gens.join(","), params.join(","), js(&f.ret), js(&f.body), arr(&calls), loops.join(","),
        arr(&cx.inlined), arr(&cx.toit_used.iter().cloned().collect()), arr(&cx.notes), arr(&cx.unsupported)
    )
}

#[allow(dead_code)]
pub fn unused(_: &Arg<'_>) {}
