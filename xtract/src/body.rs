//! Printing of one function body.
use crate::names::{Crate, KEYWORDS};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::middle::region;
use rustc_middle::mir::{BinOp, BorrowKind, UnOp};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TypingEnv};
use std::collections::{BTreeSet, HashMap, HashSet};

pub struct LoopInfo {
    pub id: usize,
    pub kind: String,
    pub vars: Vec<(String, String)>,
}

pub struct Printed {
    pub params: Vec<(String, String)>,
    pub ret: String,
    pub body: String,
}

#[derive(Clone, Debug)]
pub struct Arg<'tcx> {
    pub id: Option<ExprId>,
    pub s: Option<String>,
    pub ty: Ty<'tcx>,
}

/// An iterator adapter on the way to a loop.
#[derive(Clone)]
pub struct Stage<'tcx> {
    name: &'static str,
    f: Option<Arg<'tcx>>,
    item: Ty<'tcx>,
}

pub struct Cx<'a, 'tcx> {
    pub cr: &'a Crate<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub args: GenericArgsRef<'tcx>,
    pub env_def: DefId,
    pub adt_mode: bool,
    pub unsupported: Vec<String>,
    pub notes: Vec<String>,
    pub loops: Vec<LoopInfo>,
    pub calls: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub toit_used: BTreeSet<String>,
    pub gens: Vec<(String, String, bool, bool)>,
    erased: HashSet<String>,
    names: HashMap<rustc_hir::HirId, String>,
    used: HashSet<String>,
    vars: Vec<(String, String)>,
    scopes: Vec<region::Scope>,
    loop_stack: Vec<(Vec<region::Scope>, usize)>,
    nloops: usize,
    forced_loop: Option<(usize, String)>,
    whole: HashSet<rustc_hir::HirId>,
    for_stages: HashMap<rustc_hir::HirId, (usize, &'static str, Vec<Stage<'tcx>>)>,
    depth: usize,
    inline_stack: Vec<DefId>,
    fresh: usize,
    ret_iter: bool,
    never: Vec<String>,
    /// what `return` means inside the closure being inlined into a loop
    cret: Vec<Option<String>>,
    /// variables bound to a closure that captures by reference
    closures: HashSet<rustc_hir::HirId>,
    /// parameters of a function being inlined that stand for a closure or a function item of the
    /// caller, with the type arguments in force there
    fparams: HashMap<rustc_hir::HirId, (Ty<'tcx>, GenericArgsRef<'tcx>)>,
    cps_tail: bool,
    /// expressions already evaluated into a temporary
    bound: Vec<(*const (), String)>,
    /// conditions of the pattern being printed that stand for constants in it
    pconds: Vec<String>,
    next_cret: Option<String>,
    /// the type a `?` of the function itself returns, and of the bodies being inlined
    fn_ret: Option<Ty<'tcx>>,
    try_to: Vec<Ty<'tcx>>,
}

type Th<'x, 'tcx> = &'x Thir<'tcx>;

impl<'a, 'tcx> Cx<'a, 'tcx> {
    pub fn new(cr: &'a Crate<'tcx>, env: TypingEnv<'tcx>, args: GenericArgsRef<'tcx>, env_def: DefId) -> Self {
        Cx {
            cr, env, args, env_def,
            adt_mode: false,
            unsupported: vec![], notes: vec![], loops: vec![], calls: BTreeSet::new(), inlined: vec![],
            toit_used: BTreeSet::new(), gens: vec![], erased: HashSet::new(), names: HashMap::new(),
            used: KEYWORDS.iter().map(|s| s.to_string()).collect(), vars: vec![], scopes: vec![], loop_stack: vec![],
            nloops: 0, forced_loop: None, depth: 0, inline_stack: vec![], fresh: 0, ret_iter: false, never: vec![], cret: vec![], next_cret: None, closures: HashSet::new(), fparams: HashMap::new(), whole: HashSet::new(), for_stages: HashMap::new(), cps_tail: true, bound: vec![], pconds: vec![], fn_ret: None, try_to: vec![],
        }
    }

    fn uns(&mut self, s: impl Into<String>) -> String {
        let s = s.into();
        if !self.unsupported.contains(&s) {
            self.unsupported.push(s.clone());
        }
        "UNSUPPORTED".to_string()
    }

    fn path(&self, d: DefId) -> String {
        self.cr.tcx.def_path_str(d)
    }

    // ---------------------------------------------------------------- types
    pub fn setup_generics(&mut self, def: DefId) {
        let tcx = self.cr.tcx;
        let mut params: Vec<ty::GenericParamDef> = vec![];
        let mut g = Some(def);
        let mut chain = vec![];
        while let Some(d) = g {
            let gs = tcx.generics_of(d);
            chain.push(gs);
            g = gs.parent;
        }
        for gs in chain.iter().rev() {
            for p in &gs.own_params {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    params.push(p.clone());
                } else if matches!(p.kind, ty::GenericParamDefKind::Const { .. }) {
                    self.uns("const generic parameter");
                }
            }
        }
        let preds = tcx.clauses_of(def).instantiate_identity(tcx);
        let mut traits: HashMap<String, Vec<DefId>> = HashMap::new();
        let mut work: Vec<ty::Clause<'tcx>> = preds.clauses.iter().map(|p| p.skip_norm_wip()).collect();
        let mut seen = 0;
        while seen < work.len() {
            let c = work[seen];
            seen += 1;
            if let ty::ClauseKind::Trait(tp) = c.kind().skip_binder() {
                let st = tp.trait_ref.self_ty();
                if let ty::Param(p) = st.kind() {
                    traits.entry(p.name.to_string()).or_default().push(tp.trait_ref.def_id);
                } else if self.cr.is_local_adt(st) && tp.trait_ref.def_id.is_local() {
                    if let Some((im, args)) = self.cr.find_impl(tp.trait_ref.def_id, tp.trait_ref.args, self.env) {
                        for q in tcx.clauses_of(im).instantiate(tcx, args).clauses {
                            let q = q.skip_norm_wip();
                            if !work.contains(&q) {
                                work.push(q);
                            }
                        }
                    }
                }
            }
        }
        // the parameters of the Self ADT
        let mut main: HashSet<String> = HashSet::new();
        let impl_def = if matches!(tcx.def_kind(def), DefKind::Impl { .. }) { Some(def) } else { tcx.opt_parent(def).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. })) };
        if let Some(im) = impl_def {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = st.peel_refs();
            if let ty::Adt(_, aa) = st.kind() {
                for t in aa.types() {
                    if let ty::Param(p) = t.kind() {
                        main.insert(p.name.to_string());
                    }
                }
            }
        }
        for p in params {
            let n = p.name.to_string();
            if n == "Self" {
                continue;
            }
            let ts = traits.get(&n).cloned().unwrap_or_default();
            if ts.iter().any(|t| *t == self.cr.iter_trait || *t == self.cr.intoiter_trait) {
                self.erased.insert(n);
                continue;
            }
            let mut b: Vec<String> = vec![];
            let mut fin = false;
            let is_main = main.contains(&n);
            if is_main {
                b.push("Ord".into());
                b.push("Clone".into());
            }
            for t in ts {
                let path = tcx.def_path_str(t);
                match path.as_str() {
                    "std::ops::FnOnce" | "std::ops::Fn" | "std::ops::FnMut" => {
                        let want = t;
                        let mut ins = String::from("?");
                        let mut outp = String::from("()");
                        for c in &work {
                            match c.kind().skip_binder() {
                                ty::ClauseKind::Trait(tp) if tp.trait_ref.def_id == want && tp.trait_ref.self_ty().is_param(p.index) => {
                                    if let ty::Tuple(a) = tp.trait_ref.args.type_at(1).kind() {
                                        ins = a.iter().map(|x| self.ty(x)).collect::<Vec<_>>().join(", ");
                                    }
                                }
                                ty::ClauseKind::Projection(pp) if pp.projection_term.self_ty().is_param(p.index) => {
                                    if let Some(t) = pp.term.as_type() {
                                        outp = self.ty(t);
                                    }
                                }
                                _ => {}
                            }
                        }
                        b.push(format!("{}({}) -> {}", path.rsplit("::").next().unwrap(), ins, outp));
                    }
                    "std::cmp::Ord" | "std::cmp::PartialOrd" | "std::cmp::Eq" | "std::cmp::PartialEq" => {
                        if !b.contains(&"Ord".to_string()) {
                            b.push("Ord".into());
                        }
                    }
                    "std::clone::Clone" => {
                        if !b.contains(&"Clone".to_string()) {
                            b.push("Clone".into());
                        }
                    }
                    _ if t.is_local() && tcx.item_name(t).as_str() == "Finite" => fin = true,
                    "std::marker::Sized" | "std::marker::MetaSized" | "std::marker::PointeeSized" => {}
                    // text of a point: `txt`, `parse_s` of the prelude
                    "std::fmt::Display" | "std::str::FromStr" => {}
                    // `s_sub`, `s_default`, `s_borrow` of the prelude
                    "std::ops::Sub" | "std::default::Default" | "std::borrow::Borrow" => {}
                    other => {
                        self.uns(format!("bound {other} on {n}"));
                    }
                }
            }
            if fin {
                b.push("Finite".into());
            }
            self.gens.push((n, b.join(" + "), fin, is_main));
        }
    }

    fn subst_t(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.cr.tcx;
        ty::EarlyBinder::bind(tcx, t).instantiate(tcx, self.args).skip_norm_wip()
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.cr.tcx;
        let e = tcx.erase_and_anonymize_regions(t);
        tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(e)).unwrap_or(t)
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.cr.tcx;
        match *t.kind() {
            ty::Bool => "bool".into(),
            ty::Char => "char".into(),
            ty::Int(_) | ty::Uint(_) => t.to_string(),
            ty::Never => "!".into(),
            ty::Str => "str".into(),
            ty::Ref(_, x, m) => {
                let s = self.ty(x);
                if m.is_mut() { format!("&mut {s}") } else { format!("&{s}") }
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            ty::Array(x, n) => {
                let s = self.ty(x);
                match n.try_to_target_usize(tcx) {
                    Some(k) if k <= 8 => format!("Arr{k}<{s}>"),
                    _ => self.uns("array length"),
                }
            }
            ty::Param(p) => {
                let n = p.name.to_string();
                if self.erased.contains(&n) { self.iter_model(t) } else { n }
            }
            ty::Alias(_, al) => match al.kind {
                ty::AliasTyKind::Opaque { .. } => {
                    if self.cr.is_iter(self.env, t) { self.iter_model(t) } else { self.uns(format!("opaque type {t}")) }
                }
                _ => {
                    let n = self.norm(t);
                    if let ty::Alias(_, al) = n.kind() {
                        if let ty::AliasTyKind::Projection { def_id } = al.kind {
                            if self.path(def_id).ends_with("FromStr::Err") && matches!(al.self_ty().kind(), ty::Param(_)) {
                                let s = self.ty(al.self_ty());
                                return format!("PErr<{s}>");
                            }
                        }
                    }
                    if n == t || matches!(n.kind(), ty::Alias(..)) {
                        self.uns(format!("type {t}"))
                    } else {
                        self.ty(n)
                    }
                }
            },
            ty::Adt(a, args) => {
                let d = a.did();
                let tys: Vec<Ty<'tcx>> = args.types().collect();
                if d.is_local() {
                    let name = self.cr.adt_names.get(&d).cloned().unwrap_or_else(|| "X".into());
                    let mut v: Vec<String> = vec![];
                    for r in args.regions() {
                        v.push(if self.adt_mode { r.to_string() } else { "'_".into() });
                    }
                    for x in tys {
                        v.push(self.ty(x));
                    }
                    return if v.is_empty() { name } else { format!("{name}<{}>", v.join(", ")) };
                }
                let p = self.path(d);
                let simple = match p.as_str() {
                    "std::option::Option" => Some(("Option", 1)),
                    "std::result::Result" => Some(("Result", 2)),
                    "std::cmp::Ordering" => Some(("Ordering", 0)),
                    "std::vec::Vec" => Some(("Vec", 1)),
                    "few::Few" => Some(("Few", 1)),
                    "std::ops::Range" => Some(("std::ops::Range", 1)),
                    "std::ops::RangeFrom" => Some(("std::ops::RangeFrom", 1)),
                    "std::ops::RangeTo" => Some(("std::ops::RangeTo", 1)),
                    "std::ops::RangeToInclusive" => Some(("std::ops::RangeToInclusive", 1)),
                    "std::ops::RangeFull" => Some(("std::ops::RangeFull", 0)),
                    "std::fmt::Formatter" => Some(("Fmt", 0)),
                    "std::fmt::Error" => Some(("FmtErr", 0)),
                    _ => None,
                };
                if let Some((n, k)) = simple {
                    let v: Vec<String> = tys.iter().take(k).map(|x| self.ty(*x)).collect();
                    return if k == 0 { n.into() } else { format!("{n}<{}>", v.join(", ")) };
                }
                if p.ends_with("BTreeSet") {
                    let s = self.ty(tys[0]);
                    return format!("BSet<{s}>");
                }
                if self.cr.is_iter(self.env, t) {
                    return self.iter_model(t);
                }
                self.uns(format!("type {t}"))
            }
            ty::Slice(x) => format!("Vec<{}>", self.ty(x)),
            _ => self.uns(format!("type {t}")),
        }
    }

    fn iter_model(&mut self, t: Ty<'tcx>) -> String {
        let item = match self.item_of(t) {
            Some(i) => i,
            None => return self.uns(format!("item of {t}")),
        };
        if let ty::Ref(_, x, m) = item.kind() {
            if !m.is_mut() {
                let lt = if self.adt_mode {
                    match t.kind() {
                        ty::Adt(_, a) => a.regions().next().map(|r| r.to_string()).unwrap_or_else(|| "'_".into()),
                        _ => "'_".into(),
                    }
                } else {
                    "'_".into()
                };
                let s = self.ty(*x);
                return format!("ItR<{lt}, {s}>");
            }
        }
        let s = self.ty(item);
        format!("It<{s}>")
    }

    fn item_of(&mut self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        if self.cr.is_iter(self.env, t) {
            return self.cr.item_ty(self.env, t);
        }
        // IntoIterator only
        let tcx = self.cr.tcx;
        let d = tcx
            .associated_items(self.cr.intoiter_trait)
            .in_definition_order()
            .find(|i| i.name().as_str() == "Item")?
            .def_id;
        let e = tcx.erase_and_anonymize_regions(t);
        let p = Ty::new_projection(tcx, ty::IsRigid::No, d, [e]);
        tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(p)).ok()
    }

    fn is_few(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(a, _) if self.path(a.did()) == "few::Few")
    }
    fn adt_is(&self, t: Ty<'tcx>, p: &str) -> bool {
        matches!(t.kind(), ty::Adt(a, _) if self.path(a.did()) == p)
    }
    fn is_option(&self, t: Ty<'tcx>) -> bool {
        self.adt_is(t, "std::option::Option")
    }
    fn is_result(&self, t: Ty<'tcx>) -> bool {
        self.adt_is(t, "std::result::Result")
    }
    /// `?` on a Result whose error is passed on unchanged
    fn same_err(&self, from: Ty<'tcx>, to: Ty<'tcx>) -> bool {
        match (from.kind(), to.kind()) {
            (ty::Adt(_, a), ty::Adt(_, b)) if self.is_result(from) && self.is_result(to) => self.norm(a.type_at(1)) == self.norm(b.type_at(1)),
            _ => false,
        }
    }
    fn is_bset(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(a, _) if self.path(a.did()).ends_with("BTreeSet"))
    }

    /// Converts an iterator-valued (or iterable) expression to the model type.
    fn to_it(&mut self, s: String, t: Ty<'tcx>) -> (String, Ty<'tcx>) {
        if self.is_few(t) {
            return (format!("Few_to_it({s})"), t);
        }
        if self.cr.is_local_adt(t) && self.cr.is_iter(self.env, t) {
            let n = self.cr.tname(t);
            let next = format!("{n}_Iterator_next");
            self.calls.insert(next);
            self.toit_used.insert(n.clone());
            return (format!("toit_{n}({s})"), t);
        }
        if self.adt_is(t, "std::vec::Vec") {
            return (format!("It_from_vec({s})"), t);
        }
        if self.is_option(t) {
            return (format!("It_from_option({s})"), t);
        }
        if self.is_bset(t) {
            return (format!("BSet_into_iter({s})"), t);
        }
        if let ty::Ref(_, x, _) = t.kind() {
            if self.is_bset(*x) {
                return (format!("BSet_iter({s})"), t);
            }
            if self.adt_is(*x, "std::vec::Vec") || x.is_slice() {
                return (format!("ItR_from_vec({s})"), t);
            }
        }
        if self.cr.is_iter(self.env, t) || matches!(t.kind(), ty::Param(p) if self.erased.contains(p.name.as_str())) {
            return (s, t);
        }
        (self.uns(format!("iteration over {t}")), t)
    }

    /// "It" or "ItR" for the model of iterator/iterable type `t`.
    fn model_prefix(&mut self, t: Ty<'tcx>) -> &'static str {
        match self.item_of(t) {
            Some(i) if matches!(i.kind(), ty::Ref(_, _, m) if !m.is_mut()) => "ItR",
            _ => "It",
        }
    }

    // ------------------------------------------------------------- function
    pub fn function(&mut self, def: LocalDefId, _name: &str) -> Printed {
        let tcx = self.cr.tcx;
        let is_const = matches!(tcx.def_kind(def), DefKind::AssocConst { .. } | DefKind::Const { .. });
        let (steal, root) = match tcx.thir_body(def) {
            Ok(x) => x,
            Err(_) => {
                self.uns("no THIR");
                return Printed { params: vec![], ret: "()".into(), body: "{}".into() };
            }
        };
        let thir = steal.borrow();
        let t: Th<'_, 'tcx> = &thir;
        let ret_ty = if is_const {
            tcx.type_of(def).instantiate(tcx, self.args).skip_norm_wip()
        } else {
            tcx.fn_sig(def).instantiate(tcx, self.args).skip_norm_wip().skip_binder().output()
        };
        let mut params = vec![];
        let mut pre: Vec<String> = vec![];
        for (i, p) in t.params.iter().enumerate() {
            let pty = self.subst_t(p.ty);
            let ts = self.ty(pty);
            match p.pat.as_deref() {
                Some(Pat { kind: PatKind::Binding { name, mode, var, subpattern: None, .. }, .. })
                    if matches!(mode.0, rustc_hir::ByRef::No) =>
                {
                    let n0 = name.to_string();
                    let n0 = if n0 == "self" { "self_".to_string() } else { n0 };
                    let n = self.fresh_name(&n0);
                    if mode.1.is_mut() {
                        let m = self.fresh_name(&format!("{n}_m"));
                        pre.push(format!("let mut {m} = {n};"));
                        self.names.insert(var.0, m.clone());
                        self.vars.push((m, ts.clone()));
                    } else {
                        self.names.insert(var.0, n.clone());
                        self.vars.push((n.clone(), ts.clone()));
                    }
                    params.push((n, ts));
                }
                Some(p) => {
                    let n = self.fresh_name(&format!("p{i}"));
                    let mut post = vec![];
                    let ps = self.pat(t, p, false, &mut post);
                    pre.push(format!("let {ps} = {n};"));
                    pre.extend(post);
                    params.push((n, ts));
                }
                None => {
                    let n = self.fresh_name(&format!("p{i}"));
                    params.push((n, ts));
                }
            }
        }
        self.ret_iter = matches!(ret_ty.kind(), ty::Alias(_, al) if matches!(al.kind, ty::AliasTyKind::Opaque{..})) && self.cr.is_iter(self.env, ret_ty);
        let ret = self.ty(ret_ty);
        self.fn_ret = Some(ret_ty);
        let b = self.e(t, root);
        let b = self.conv_ret(t, root, b);
        let body = format!(
            "{{ /*@start*/\n{}\nlet r_ = {b};\n/*@exit*/\nr_ }}",
            pre.join("\n")
        );
        Printed { params, ret, body }
    }

    fn conv_ret(&mut self, t: Th<'_, 'tcx>, id: ExprId, s: String) -> String {
        if !self.ret_iter {
            return s;
        }
        let ty = self.subst_t(self.peel(t, id).ty);
        let ty2 = if matches!(ty.kind(), ty::Never) { return s } else { ty };
        self.to_it(s, ty2).0
    }

    fn fresh_name(&mut self, base: &str) -> String {
        let base = if base.starts_with('_') && base.len() == 1 { "u_" } else { base };
        let base = if base == "r_" { "r__" } else if base == "self" { "self_" } else { base };
        let mut n = base.to_string();
        let mut k = 1;
        while self.used.contains(&n) {
            k += 1;
            n = format!("{base}_{k}");
        }
        self.used.insert(n.clone());
        n
    }

    fn tmp(&mut self) -> String {
        self.fresh += 1;
        self.fresh_name(&format!("v{}_", self.fresh))
    }

    fn peel<'x>(&self, t: Th<'x, 'tcx>, mut id: ExprId) -> &'x Expr<'tcx> {
        loop {
            match &t[id].kind {
                ExprKind::Scope { value, .. } => id = *value,
                ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => id = *source,
                ExprKind::Reborrow { source, .. } => id = *source,
                _ => return &t[id],
            }
        }
    }

    fn peel_id(&self, t: Th<'_, 'tcx>, mut id: ExprId) -> ExprId {
        loop {
            match &t[id].kind {
                ExprKind::Scope { value, .. } => id = *value,
                ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => id = *source,
                _ => return id,
            }
        }
    }

    // ------------------------------------------------------------- patterns
    fn bind(&mut self, var: rustc_hir::HirId, name: &str, ty: Ty<'tcx>) -> String {
        let n = match self.names.get(&var) {
            Some(n) => n.clone(),
            None => {
                let n = self.fresh_name(name);
                self.names.insert(var, n.clone());
                n
            }
        };
        let ts = {
            let k = self.unsupported.len();
            let s = self.ty(ty);
            self.unsupported.truncate(k);
            s
        };
        if self.vars.last().map_or(true, |v| v.0 != n) {
            self.vars.push((n.clone(), ts));
        }
        n
    }

    fn pat(&mut self, t: Th<'_, 'tcx>, p: &Pat<'tcx>, under: bool, post: &mut Vec<String>) -> String {
        let tcx = self.cr.tcx;
        match &p.kind {
            PatKind::Wild | PatKind::Missing => "_".into(),
            PatKind::Never => "_".into(),
            PatKind::Binding { name, mode, var, ty, subpattern, .. } => {
                let ty = self.subst_t(*ty);
                let n = self.bind(var.0, name.as_str(), ty);
                let sub = match subpattern {
                    Some(sp) => format!(" @ {}", self.pat(t, sp, under, post)),
                    None => String::new(),
                };
                match mode.0 {
                    rustc_hir::ByRef::No => {
                        if under {
                            let r = self.fresh_name(&format!("{n}_r"));
                            if mode.1.is_mut() {
                                post.push(format!("let mut {n} = *{r};"));
                            } else {
                                post.push(format!("let {n} = *{r};"));
                            }
                            format!("{r}{sub}")
                        } else if mode.1.is_mut() {
                            format!("mut {n}{sub}")
                        } else {
                            format!("{n}{sub}")
                        }
                    }
                    rustc_hir::ByRef::Yes(_, m) => {
                        if under {
                            format!("{n}{sub}")
                        } else if m.is_mut() {
                            format!("ref mut {n}{sub}")
                        } else {
                            format!("ref {n}{sub}")
                        }
                    }
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                let head = self.variant_path(adt_def.did(), v);
                self.fields_pat(t, head, v, subpatterns, under, post)
            }
            PatKind::Leaf { subpatterns } => match p.ty.kind() {
                ty::Tuple(ts) => {
                    let mut v = vec!["_".to_string(); ts.len()];
                    for f in subpatterns {
                        v[f.field.as_usize()] = self.pat(t, &f.pattern, under, post);
                    }
                    if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
                }
                ty::Adt(a, _) if a.is_struct() => {
                    let v = a.non_enum_variant();
                    let head = if a.did().is_local() { self.cr.adt_names[&a.did()].clone() } else { tcx.def_path_str(a.did()) };
                    self.fields_pat(t, head, v, subpatterns, under, post)
                }
                _ => self.uns("leaf pattern"),
            },
            PatKind::Array { prefix, slice, suffix } => match *p.ty.kind() {
                ty::Array(_, n) => {
                    let k = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                    if k == 0 || k > 8 || !slice.as_ref().map_or(true, |s| matches!(s.kind, PatKind::Wild)) {
                        return self.uns("array pattern");
                    }
                    let mut a = vec![];
                    for (i, q) in prefix.iter().enumerate() {
                        a.push(format!("f{i}: {}", self.pat(t, q, under, post)));
                    }
                    for (i, q) in suffix.iter().enumerate() {
                        a.push(format!("f{}: {}", k - suffix.len() + i, self.pat(t, q, under, post)));
                    }
                    a.push("..".into());
                    format!("Arr{k} {{ {} }}", a.join(", "))
                }
                _ => self.uns("slice pattern"),
            },
            PatKind::Deref { subpattern, .. } if matches!(&subpattern.kind, PatKind::Constant { value } if value.ty.is_str()) => self.pat(t, subpattern, under, post),
            PatKind::Deref { subpattern, .. } => self.pat(t, subpattern, true, post),
            PatKind::Constant { value } => match self.const_cond(*value) {
                Some(c) => {
                    let r = self.fresh_name("k_");
                    self.pconds.push(c.replace("$$", &if under { format!("(*{r})") } else { r.clone() }));
                    r
                }
                None => self.constant(*value),
            },
            PatKind::Or { pats } => {
                let k = self.pconds.len();
                let v: Vec<String> = pats.iter().map(|q| self.pat(t, q, under, post)).collect();
                if self.pconds.len() > k { self.uns("constants below an or-pattern"); }
                v.join(" | ")
            }
            other => self.uns(format!("pattern {}", format!("{other:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""))),
        }
    }

    /// prints a pattern that may be refuted, with the guard that stands for constants in it
    fn rpat(&mut self, t: Th<'_, 'tcx>, p: &Pat<'tcx>, under: bool, post: &mut Vec<String>) -> String {
        let save = std::mem::take(&mut self.pconds);
        let s = self.pat(t, p, under, post);
        let c = std::mem::replace(&mut self.pconds, save);
        if c.is_empty() { s } else { format!("{s} if {}", c.join(" && ")) }
    }

    /// A constant the verifier takes in no pattern, as a condition on `$$`: text, the ends of an
    /// integer type.
    fn const_cond(&mut self, value: ty::Value<'tcx>) -> Option<String> {
        let tcx = self.cr.tcx;
        let text = match value.ty.kind() {
            ty::Str => true,
            ty::Ref(_, x, _) => x.is_str(),
            _ => false,
        };
        if text {
            let b: Option<Vec<u8>> = value.to_branch().iter().map(|c| c.try_to_value().and_then(|v| v.try_to_leaf()).map(|l| l.to_u8())).collect();
            let _ = tcx;
            return Some(format!("str_eq($$, slit(Ghost({})))", chars(&String::from_utf8(b?).ok()?)));
        }
        let l = value.valtree.try_to_leaf()?;
        let sz = l.size();
        match value.ty.kind() {
            ty::Int(_) => {
                let v = l.to_int(sz);
                let n = value.ty.to_string();
                if v == sz.signed_int_min() { Some(format!("$$ == {n}::MIN")) } else if v == sz.signed_int_max() { Some(format!("$$ == {n}::MAX")) } else { None }
            }
            ty::Uint(_) => (l.to_uint(sz) == sz.unsigned_int_max()).then(|| format!("$$ == {}::MAX", value.ty)),
            _ => None,
        }
    }

    fn constant(&mut self, value: ty::Value<'tcx>) -> String {
        let tcx = self.cr.tcx;
        match value.ty.kind() {
            ty::Bool => match value.try_to_bool() {
                Some(b) => b.to_string(),
                None => self.uns("const pattern"),
            },
            ty::Int(_) | ty::Uint(_) => match value.valtree.try_to_leaf() {
                Some(l) => {
                    let sz = l.size();
                    if matches!(value.ty.kind(), ty::Int(_)) { l.to_int(sz).to_string() } else { l.to_uint(sz).to_string() }
                }
                None => self.uns("const pattern"),
            },
            _ => {
                let _ = tcx;
                self.uns("const pattern")
            }
        }
    }

    fn variant_path(&mut self, adt: DefId, v: &ty::VariantDef) -> String {
        let tcx = self.cr.tcx;
        let p = tcx.def_path_str(adt);
        match p.as_str() {
            "std::option::Option" | "std::result::Result" => v.name.to_string(),
            "std::cmp::Ordering" => format!("Ordering::{}", v.name),
            "few::Few" => format!("Few::{}", v.name),
            _ => {
                if let Some(n) = self.cr.adt_names.get(&adt) {
                    format!("{n}::{}", v.name)
                } else {
                    self.uns(format!("variant of {p}"))
                }
            }
        }
    }

    fn fields_pat(&mut self, t: Th<'_, 'tcx>, head: String, v: &ty::VariantDef, subs: &[FieldPat<'tcx>], under: bool, post: &mut Vec<String>) -> String {
        if v.fields.is_empty() {
            return head;
        }
        if v.ctor_kind() == Some(CtorKind::Fn) {
            let mut a = vec!["_".to_string(); v.fields.len()];
            for f in subs {
                let s = self.pat(t, &f.pattern, under, post);
                a[f.field.as_usize()] = if matches!(f.pattern.kind, PatKind::Or { .. }) { format!("({s})") } else { s };
            }
            format!("{head}({})", a.join(", "))
        } else {
            let mut a = vec![];
            for f in subs {
                let s = self.pat(t, &f.pattern, under, post);
                a.push(format!("{}: {s}", v.fields[f.field].name));
            }
            a.push("..".into());
            format!("{head} {{ {} }}", a.join(", "))
        }
    }

    // ---------------------------------------------------------- expressions
    fn ety(&self, t: Th<'_, 'tcx>, id: ExprId) -> Ty<'tcx> {
        self.subst_t(t[id].ty)
    }

    pub fn e(&mut self, t: Th<'_, 'tcx>, id: ExprId) -> String {
        let tcx = self.cr.tcx;
        let ex = &t[id];
        if let Some(s) = self.bound_to(ex) {
            return s;
        }
        match &ex.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                self.scopes.push(*region_scope);
                let r = self.e(t, *value);
                self.scopes.pop();
                r
            }
            ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => self.e(t, *source),
            ExprKind::Reborrow { source, .. } => self.e(t, *source),
            ExprKind::ByUse { expr, .. } => self.e(t, *expr),
            ExprKind::If { cond, then, else_opt, .. } => {
                let n = self.vars.len();
                let c = *cond;
                let r = self.if_(t, c, *then, *else_opt);
                self.vars.truncate(n);
                r
            }
            ExprKind::Call { ty, fun, args, .. } => {
                let ty = self.subst_t(*ty);
                match *ty.kind() {
                    ty::FnDef(def, gargs) => {
                        let gargs = gargs.no_bound_vars().unwrap_or_else(|| gargs.skip_binder());
                        let a: Vec<Arg<'tcx>> = args.iter().map(|i| Arg { id: Some(*i), s: None, ty: self.ety(t, *i) }).collect();
                        let rt = self.ety(t, id);
                        self.call(t, def, gargs, a, rt)
                    }
                    _ => {
                        if self.place_var(t, *fun).map_or(false, |v| self.fparams.contains_key(&v)) {
                            let vals: Vec<(String, Ty<'tcx>)> = args.iter().map(|i| { let s = self.e(t, *i); (s, self.ety(t, *i)) }).collect();
                            let rt = self.ety(t, id);
                            return self.apply(t, &Arg { id: Some(*fun), s: None, ty }, vals, rt);
                        }
                        self.uns("indirect call")
                    }
                }
            }
            ExprKind::Deref { arg } => {
                let a = self.peel(t, *arg);
                if let ExprKind::Borrow { arg: b, .. } = a.kind {
                    return self.e(t, b);
                }
                let s = self.e(t, *arg);
                deref(&s)
            }
            ExprKind::Binary { op, lhs, rhs } => {
                let l = self.e(t, *lhs);
                let r = self.e(t, *rhs);
                let lt = self.ety(t, *lhs);
                let o = match op {
                    BinOp::Add => "+", BinOp::Sub => "-", BinOp::Mul => "*", BinOp::Div => "/", BinOp::Rem => "%",
                    BinOp::Eq => "==", BinOp::Ne => "!=", BinOp::Lt => "<", BinOp::Le => "<=", BinOp::Gt => ">", BinOp::Ge => ">=",
                    BinOp::BitAnd => "&", BinOp::BitOr => "|", BinOp::BitXor => "^",
                    _ => { self.uns(format!("operator {op:?}")); "?" }
                };
                if lt.is_bool() && matches!(op, BinOp::BitAnd | BinOp::BitOr | BinOp::BitXor) {
                    return match op {
                        BinOp::BitAnd => format!("band({l}, {r})"),
                        BinOp::BitOr => format!("bor({l}, {r})"),
                        _ => format!("({l} != {r})"),
                    };
                }
                format!("({l} {o} {r})")
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let l = self.e(t, *lhs);
                let r = self.e(t, *rhs);
                format!("({l} {} {r})", if matches!(op, LogicalOp::And) { "&&" } else { "||" })
            }
            ExprKind::Unary { op, arg } => {
                let a = self.e(t, *arg);
                match op {
                    UnOp::Not => format!("(!{a})"),
                    UnOp::Neg => format!("(-{a})"),
                    _ => self.uns("unary"),
                }
            }
            ExprKind::Cast { source } => {
                let a = self.e(t, *source);
                let ty = self.ety(t, id);
                let ts = self.ty(ty);
                format!("({a} as {ts})")
            }
            ExprKind::NeverToAny { source } => {
                let ty = self.ety(t, id);
                let k = self.unsupported.len();
                let ts = self.ty(ty);
                self.unsupported.truncate(k);
                self.never.push(ts);
                let r = self.e(t, *source);
                self.never.pop();
                r
            }
            ExprKind::PointerCoercion { source, .. } => {
                self.uns("pointer coercion");
                self.e(t, *source)
            }
            ExprKind::Loop { body } => {
                let (lid, kind) = self.forced_loop.take().unwrap_or_else(|| { self.nloops += 1; (self.nloops, "loop".into()) });
                self.print_loop(t, lid, &kind, |me| me.e(t, *body))
            }
            ExprKind::Let { expr, pat } => {
                let s = self.e(t, *expr);
                let mut post = vec![];
                let p = self.rpat(t, pat, false, &mut post);
                format!("(match {s} {{ {p} => true, _ => false }})")
            }
            ExprKind::Match { scrutinee, arms, match_source } => self.match_(t, *scrutinee, arms, *match_source, id),
            ExprKind::Block { block } => self.block(t, *block),
            ExprKind::Assign { lhs, rhs } => {
                let l = self.e(t, *lhs);
                let r = self.e(t, *rhs);
                format!("{l} = {r}")
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let l = self.e(t, *lhs);
                let r = self.e(t, *rhs);
                let lt = self.ety(t, *lhs);
                use rustc_middle::mir::AssignOp as A;
                if lt.is_bool() {
                    return match op {
                        A::BitAndAssign => format!("{l} = band({l}, {r})"),
                        A::BitOrAssign => format!("{l} = bor({l}, {r})"),
                        _ => self.uns("bool assign op"),
                    };
                }
                let o = match op {
                    A::AddAssign => "+", A::SubAssign => "-", A::MulAssign => "*", A::DivAssign => "/", A::RemAssign => "%",
                    _ => { self.uns("assign op"); "?" }
                };
                format!("{l} = {l} {o} {r}")
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.ety(t, *lhs);
                let l = self.e(t, *lhs);
                match lt.kind() {
                    ty::Adt(a, _) => {
                        let v = a.variant(*variant_index);
                        format!("{l}.{}", v.fields[*name].name)
                    }
                    ty::Tuple(_) => format!("{l}.{}", name.as_usize()),
                    _ => self.uns("field"),
                }
            }
            ExprKind::Index { lhs, index } => {
                let lt = self.ety(t, *lhs);
                let l = self.e(t, *lhs);
                if matches!(lt.kind(), ty::Array(..)) {
                    if let ExprKind::Literal { lit, neg: false } = &self.peel(t, *index).kind {
                        if let rustc_ast::LitKind::Int(k, _) = lit.node {
                            return format!("{l}.f{}", k.get());
                        }
                    }
                }
                self.uns("index")
            }
            ExprKind::VarRef { id } | ExprKind::UpvarRef { var_hir_id: id, .. } => match self.names.get(&id.0) {
                Some(n) => n.clone(),
                None => self.uns("variable"),
            },
            ExprKind::Borrow { borrow_kind, arg } => {
                let is_mut = matches!(borrow_kind, BorrowKind::Mut { .. });
                let a = self.peel(t, *arg);
                if let ExprKind::Deref { arg: inner } = a.kind {
                    let it = self.ety(t, inner);
                    if !is_mut && matches!(it.kind(), ty::Ref(_, _, m) if !m.is_mut()) {
                        return self.e(t, inner);
                    }
                }
                let s = self.e(t, *arg);
                if is_mut { format!("(&mut {s})") } else { format!("(&{s})") }
            }
            ExprKind::Break { label, value } => {
                if let Some(v) = value {
                    let vt = self.ety(t, *v);
                    if !vt.is_unit() {
                        return self.uns("break with value");
                    }
                }
                self.jump("break", *label)
            }
            ExprKind::Continue { label } => self.jump("continue", *label),
            ExprKind::Return { value } => {
                if self.depth > 0 {
                    if let Some(Some(tpl)) = self.cret.last().cloned() {
                        let save = std::mem::replace(&mut self.ret_iter, false);
                        let v = match value { Some(v) => self.e(t, *v), None => "()".into() };
                        self.ret_iter = save;
                        return tpl.replace("$$", &v);
                    }
                    return self.uns("return inside an inlined body");
                }
                let v = match value {
                    Some(v) => {
                        let s = self.e(t, *v);
                        self.conv_ret(t, *v, s)
                    }
                    None => "()".into(),
                };
                format!("{{ let r_ = {v};\n/*@exit*/\nreturn r_; }}")
            }
            ExprKind::Array { fields } => {
                let v: Vec<String> = fields.iter().map(|f| self.e(t, *f)).collect();
                if v.len() > 8 {
                    return self.uns("array");
                }
                format!("Arr{} {{ {} }}", v.len(), v.iter().enumerate().map(|(i, s)| format!("f{i}: {s}")).collect::<Vec<_>>().join(", "))
            }
            ExprKind::Tuple { fields } => {
                let v: Vec<String> = fields.iter().map(|f| self.e(t, *f)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                let d = a.adt_def.did();
                let head = if a.adt_def.is_enum() {
                    self.variant_path(d, v)
                } else if let Some(n) = self.cr.adt_names.get(&d) {
                    n.clone()
                } else {
                    let p = tcx.def_path_str(d);
                    if p.starts_with("std::ops::Range") { p } else { self.uns(format!("struct {p}")) }
                };
                if !matches!(a.base, AdtExprBase::None) {
                    return self.uns("struct update");
                }
                if v.ctor_kind() == Some(CtorKind::Fn) {
                    let mut fs: Vec<(usize, String)> = a.fields.iter().map(|f| (f.name.as_usize(), self.e(t, f.expr))).collect();
                    fs.sort();
                    return format!("{head}({})", fs.into_iter().map(|x| x.1).collect::<Vec<_>>().join(", "));
                }
                if a.fields.is_empty() {
                    return head;
                }
                let fs: Vec<String> = a.fields.iter().map(|f| format!("{}: {}", v.fields[f.name].name, self.e(t, f.expr))).collect();
                format!("{head} {{ {} }}", fs.join(", "))
            }
            ExprKind::Literal { lit, neg } => match lit.node {
                rustc_ast::LitKind::Int(k, _) => {
                    let ty = self.ety(t, id);
                    format!("{}{}{}", if *neg { "-" } else { "" }, k.get(), ty)
                }
                rustc_ast::LitKind::Bool(b) => b.to_string(),
                rustc_ast::LitKind::Str(s, _) => format!("slit(Ghost({}))", chars(s.as_str())),
                rustc_ast::LitKind::Char(c) => format!("'\\u{{{:x}}}'", c as u32),
                _ => self.uns("literal"),
            },
            ExprKind::NonHirLiteral { lit, .. } => {
                let ty = self.ety(t, id);
                if ty.is_bool() { (lit.try_to_bool() == Ok(true)).to_string() }
                else if ty.is_integral() {
                    let sz = lit.size();
                    if ty.is_signed() { format!("{}{}", lit.to_int(sz), ty) } else { format!("{}{}", lit.to_uint(sz), ty) }
                } else { self.uns("literal") }
            }
            ExprKind::ZstLiteral { .. } => {
                let ty = self.ety(t, id);
                match ty.kind() {
                    ty::FnDef(..) => self.uns("function value"),
                    _ => self.uns("zst literal"),
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                let args = ty::EarlyBinder::bind(tcx, *args).instantiate(tcx, self.args).skip_norm_wip();
                let nm = tcx.item_name(*def_id).to_string();
                if let Some(tr) = tcx.trait_of_assoc(*def_id) {
                    if tr.is_local() {
                        let st = args.type_at(0);
                        if matches!(st.kind(), ty::Param(_)) {
                            let s = self.ty(st);
                            return format!("{s}::{nm}_c()");
                        }
                        let trr = ty::TraitRef::new_from_args(tcx, tr, args);
                        let f = self.cr.mangle_trait_item(trr, &nm);
                        self.calls.insert(f.clone());
                        return format!("{f}()");
                    }
                    return self.uns(format!("constant {}", tcx.def_path_str(*def_id)));
                }
                if def_id.is_local() {
                    if let Some(im) = tcx.opt_parent(*def_id) {
                        if matches!(tcx.def_kind(im), DefKind::Impl { .. }) {
                            let f = self.cr.mangle_impl_item(im, &nm);
                            self.calls.insert(f.clone());
                            return format!("{f}()");
                        }
                    }
                    return self.uns("constant item");
                }
                let ty = self.ety(t, id);
                if ty.is_integral() && (nm == "MIN" || nm == "MAX") {
                    return format!("{ty}::{nm}");
                }
                self.uns(format!("constant {}", tcx.def_path_str(*def_id)))
            }
            other => {
                let s = format!("{other:?}");
                let k = s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                self.uns(format!("expression {k}"))
            }
        }
    }

    fn jump(&mut self, kw: &str, label: region::Scope) -> String {
        for (k, (sc, id)) in self.loop_stack.iter().rev().enumerate() {
            if sc.contains(&label) {
                return if k == 0 { kw.to_string() } else { format!("{kw} 'l{id}") };
            }
        }
        self.uns("jump target")
    }

    fn loop_vars(&self) -> Vec<(String, String)> {
        self.vars.clone()
    }

    fn print_loop(&mut self, _t: Th<'_, 'tcx>, id: usize, kind: &str, f: impl FnOnce(&mut Self) -> String) -> String {
        // scopes directly enclosing the loop expression (innermost first)
        let sc: Vec<region::Scope> = self.scopes.iter().rev().take(1).cloned().collect();
        self.loop_stack.push((sc, id));
        let vars = self.loop_vars();
        self.loops.push(LoopInfo { id, kind: kind.into(), vars });
        let n = self.vars.len();
        let b = f(self);
        self.vars.truncate(n);
        self.loop_stack.pop();
        let lab = format!("'l{id}");
        let head = if b.contains(&lab) { format!("{lab}: ") } else { String::new() };
        format!("{head}loop /*@loop {id}*/ {{ /*@body {id}*/ {b}; }}")
    }

    fn has_let(&self, t: Th<'_, 'tcx>, id: ExprId) -> bool {
        match &self.peel(t, id).kind {
            ExprKind::Let { .. } => true,
            ExprKind::LogicalOp { op: LogicalOp::And, lhs, rhs } => self.has_let(t, *lhs) || self.has_let(t, *rhs),
            _ => false,
        }
    }

    fn if_(&mut self, t: Th<'_, 'tcx>, cond: ExprId, then: ExprId, els: Option<ExprId>) -> String {
        let mut th = |me: &mut Self| me.e(t, then);
        match els {
            Some(x) => self.if_g(t, cond, &mut th, Some(&mut |me: &mut Self| me.e(t, x))),
            None => self.if_g(t, cond, &mut th, None),
        }
    }

    fn if_g(&mut self, t: Th<'_, 'tcx>, cond: ExprId, then: &mut dyn FnMut(&mut Self) -> String, mut els: Option<&mut dyn FnMut(&mut Self) -> String>) -> String {
        let (c0, c1) = {
            let c = self.peel(t, cond);
            match &c.kind {
                ExprKind::Let { expr, pat } => {
                    let s = self.e(t, *expr);
                    let mut post = vec![];
                    let p = self.rpat(t, pat, false, &mut post);
                    let th = then(self);
                    let el = match els { Some(x) => x(self), None => "()".into() };
                    let ps = post.join(" ");
                    return format!("match {s} {{ {p} => {{ {ps} {th} }}, _ => {{ {el} }} }}");
                }
                ExprKind::LogicalOp { op: LogicalOp::And, lhs, rhs } if self.has_let(t, cond) => (*lhs, Some(*rhs)),
                _ => (cond, None),
            }
        };
        if let Some(rhs) = c1 {
            let c = self.peel(t, c0);
            // nested: if lhs { if rhs {then} else {els} } else {els}
            let head = match &c.kind {
                ExprKind::Let { expr, pat } => {
                    let s = self.e(t, *expr);
                    let mut post = vec![];
                    let p = self.rpat(t, pat, false, &mut post);
                    (format!("match {s} {{ {p} => {{ {} ", post.join(" ")), "}, _ => {", "} }")
                }
                ExprKind::LogicalOp { op: LogicalOp::And, .. } if self.has_let(t, c0) => {
                    self.uns("let chain");
                    (String::new(), "", "")
                }
                _ => (format!("if {} {{ ", self.e(t, c0)), "} else {", "}"),
            };
            let inner = match &mut els {
                Some(x) => self.if_g(t, rhs, then, Some(&mut **x)),
                None => self.if_g(t, rhs, then, None),
            };
            let el = match els { Some(x) => x(self), None => "()".into() };
            return format!("{}{inner} {} {el} {}", head.0, head.1, head.2);
        }
        let c = self.e(t, cond);
        let th = then(self);
        let th = brace(&th);
        match els {
            Some(x) => {
                let el = x(self);
                format!("if {c} {th} else {}", brace(&el))
            }
            None => format!("if {c} {th}"),
        }
    }

    fn match_(&mut self, t: Th<'_, 'tcx>, scrut: ExprId, arms: &[ArmId], src: rustc_hir::MatchSource, whole: ExprId) -> String {
        if let rustc_hir::MatchSource::TryDesugar(_) = src {
            if let ExprKind::Call { args, .. } = &self.peel(t, scrut).kind {
                let at = self.ety(t, args[0]);
                if self.is_option(at) {
                    let s = self.e(t, args[0]);
                    if self.depth > 0 {
                        return self.uns("? inside an inlined body");
                    }
                    return format!("(match {s} {{ Some(v_) => v_, None => {{ let r_ = None;\n/*@exit*/\nreturn r_; }} }})");
                }
                if self.is_result(at) && self.depth == 0 && self.fn_ret.map_or(false, |r| self.same_err(at, r)) {
                    let s = self.e(t, args[0]);
                    return format!("(match {s} {{ Ok(v_) => v_, Err(e_) => {{ let r_ = Err(e_);\n/*@exit*/\nreturn r_; }} }})");
                }
            }
            return self.uns("? operator");
        }
        if let rustc_hir::MatchSource::ForLoopDesugar = src {
            // outer match of a `for`: match into_iter(X) { mut iter => loop {..} }
            if arms.len() == 1 {
                let arm = &t[arms[0]];
                if let PatKind::Binding { var, ty, .. } = &arm.pattern.kind {
                    if let ExprKind::Call { args, ty: fty, .. } = &self.peel(t, scrut).kind {
                        let fty = self.subst_t(*fty);
                        let is_into = matches!(fty.kind(), ty::FnDef(d, _) if self.path(*d).ends_with("IntoIterator::into_iter"));
                        if is_into {
                            let at = self.ety(t, args[0]);
                            self.nloops += 1;
                            let id = self.nloops;
                            let a0 = Arg { id: Some(args[0]), s: None, ty: self.ety(t, args[0]) };
                            let (base, st) = self.stages(t, &a0);
                            let mut src_s = if st.is_empty() { self.e(t, scrut) } else { let b = self.a(t, &base); self.to_it(b, base.ty).0 };
                            let fused = !st.is_empty();
                            if fused {
                                let p = self.model_prefix(base.ty);
                                self.for_stages.insert(var.0, (id, p, st));
                            }
                            // an iterator defined here is taken whole: everything it yields, in order
                            let whole_it = !fused && self.cr.is_local_adt(self.subst_t(*ty)) && self.cr.is_iter(self.env, self.subst_t(*ty)) && !self.is_few(self.subst_t(*ty));
                            if whole_it {
                                let it_ty = self.subst_t(*ty);
                                src_s = self.to_it(src_s, it_ty).0;
                                self.whole.insert(var.0);
                            }
                            let itv = self.fresh_name(&format!("it_{id}"));
                            self.names.insert(var.0, itv.clone());
                            let vty = self.subst_t(*ty);
                            let n = self.vars.len();
                            let k = self.unsupported.len();
                            let vts = self.ty(vty);
                            self.unsupported.truncate(k);
                            let vts = if fused { self.model_prefix(base.ty).to_string() } else if vts == "UNSUPPORTED" || whole_it { self.model_prefix(vty).to_string() } else { vts };
                            self.vars.push((itv.clone(), vts));
                            let _ = at;
                            self.forced_loop = Some((id, "for".into()));
                            let body = self.e(t, arm.body);
                            self.vars.truncate(n);
                            return format!("{{ let mut {itv} = {src_s};\nlet ghost src_{id} = {itv};\n/*@pre {id}*/\n{body};\n/*@post {id}*/ }}");
                        }
                    }
                }
                return self.uns("for loop");
            }
        }
        let _ = whole;
        if let Some((id, prefix, st)) = self.for_next(t, scrut) {
            // the inner match of a `for` over adapters
            let it = match &self.peel(t, scrut).kind { ExprKind::Call { args, .. } => self.e(t, args[0]), _ => unreachable!() };
            let mut out = format!("match {prefix}_next({it}) {{ ");
            for a in arms.iter() {
                let arm = &t[*a];
                let sub = match &arm.pattern.kind { PatKind::Variant { subpatterns, .. } => subpatterns.first().map(|f| &f.pattern), _ => return self.uns("for loop") };
                match sub {
                    None => out.push_str("None => { break; }, "),
                    Some(p) => {
                        let x = self.fresh_name(&format!("x_{id}"));
                        let (open, cur, shut) = self.run_stages(t, id, &st, x.clone());
                        let n = self.vars.len();
                        let mut post = vec![];
                        let ps = self.pat(t, p, false, &mut post);
                        let b = self.e(t, arm.body);
                        self.vars.truncate(n);
                        out.push_str(&format!("Some({x}) => {{ {open}let {ps} = {cur}; {} {b};{shut} }}, ", post.join(" ")));
                    }
                }
            }
            out.push('}');
            return out;
        }
        let s = self.e(t, scrut);
        self.match_g(t, s, arms, &mut |me, b| me.e(t, b))
    }

    fn has_const_cond(&mut self, p: &Pat<'tcx>) -> bool {
        let mut cs = vec![];
        p.walk_always(|q| if let PatKind::Constant { value } = &q.kind { cs.push(*value); });
        cs.into_iter().any(|v| self.const_cond(v).is_some())
    }

    fn match_g(&mut self, t: Th<'_, 'tcx>, s: String, arms: &[ArmId], body: &mut dyn FnMut(&mut Self, ExprId) -> String) -> String {
        let mut out = format!("match {s} {{\n");
        for a in arms.iter() {
            let arm = &t[*a];
            let alts: Vec<&Pat<'tcx>> = split_or(&arm.pattern);
            let expand = alts.len() > 1 && (binds_mut(&arm.pattern) || arm.guard.is_some() || self.has_const_cond(&arm.pattern));
            let groups: Vec<(&Pat<'tcx>, bool)> = if expand { alts.into_iter().map(|p| (p, under_deref(&arm.pattern))).collect() } else { vec![(&*arm.pattern, false)] };
            for (p, und) in groups {
                let n = self.vars.len();
                let mut post = vec![];
                let save = std::mem::take(&mut self.pconds);
                let ps = self.pat(t, p, und, &mut post);
                let conds = std::mem::replace(&mut self.pconds, save);
                let g = match arm.guard {
                    Some(g) => {
                        if !post.is_empty() {
                            self.uns("guard with by-value binding below a reference");
                        }
                        if self.has_let(t, g) {
                            self.uns("if-let guard");
                        }
                        let pre: String = conds.iter().map(|c| format!("{c} && ")).collect();
                        if pre.is_empty() { format!(" if {}", self.e(t, g)) } else { format!(" if {pre}({})", self.e(t, g)) }
                    }
                    None if !conds.is_empty() => format!(" if {}", conds.join(" && ")),
                    None => String::new(),
                };
                let b = body(self, arm.body);
                self.vars.truncate(n);
                out.push_str(&format!("{ps}{g} => {{ {} {b} }},\n", post.join(" ")));
            }
        }
        out.push('}');
        out
    }

    fn block(&mut self, t: Th<'_, 'tcx>, b: BlockId) -> String {
        let bl = &t[b];
        if bl.targeted_by_break {
            self.uns("labelled block");
        }
        let n = self.vars.len();
        let mut out = String::from("{\n");
        for s in bl.stmts.iter() {
            match &t[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.e(t, *expr);
                    out.push_str(&e);
                    // a diverging last statement is the value of the block
                    let last = std::ptr::eq(s, bl.stmts.last().unwrap()) && bl.expr.is_none();
                    out.push_str(if last && e.starts_with("unreached::<") && e.ends_with(">()") { "\n" } else { ";\n" });
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let mut pty = self.subst_t(pattern.ty);
                    if let ty::Ref(_, x, _) = pty.kind() { pty = *x; }
                    if matches!(pty.kind(), ty::Adt(a, _) if self.path(a.did()).contains("AssertKind")) {
                        continue;
                    }
                    if self.note_closure(t, pattern, *initializer) {
                        continue;
                    }
                    let init = match initializer {
                        Some(i) => Some(self.e(t, *i)),
                        None => None,
                    };
                    let mut post = vec![];
                    let p = self.rpat(t, pattern, false, &mut post);
                    match (init, else_block) {
                        (Some(i), None) => out.push_str(&format!("let {p} = {i};\n{}", post.join("\n"))),
                        (None, None) => {
                            let ts = { let ty = self.subst_t(pattern.ty); self.ty(ty) };
                            out.push_str(&format!("let {p}: {ts};\n"));
                        }
                        (Some(i), Some(eb)) => {
                            let mut names = vec![];
                            pattern.each_binding(|nm, _, _, _| names.push(nm.to_string()));
                            let mut vs = vec![];
                            collect_vars(pattern, &mut vs);
                            let vs: Vec<String> = vs.iter().map(|v| self.names[v].clone()).collect();
                            let tup = if vs.len() == 1 { vs[0].clone() } else { format!("({})", vs.join(", ")) };
                            // an `else` that ends in a panic has the type of what is bound
                            let ts: Vec<String> = vs.iter().map(|n| self.vars.iter().rev().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or_default()).collect();
                            self.never.push(if ts.len() == 1 { ts[0].clone() } else { format!("({})", ts.join(", ")) });
                            let el = self.block(t, *eb);
                            self.never.pop();
                            out.push_str(&format!("let {tup} = match {i} {{ {p} => {{ {} {tup} }}, _ => {el} }};\n", post.join(" ")));
                        }
                        _ => {
                            self.uns("let");
                        }
                    }
                }
            }
        }
        if let Some(e) = bl.expr {
            let s = self.e(t, e);
            out.push_str(&s);
            out.push('\n');
        }
        out.push('}');
        self.vars.truncate(n);
        out
    }

    /// Prints `id`, whose evaluation may end in a `return` of the body being inlined: `k` prints
    /// what happens with its value, a returned value is the value of the whole.
    fn cps(&mut self, t: Th<'_, 'tcx>, id: ExprId, k: &mut dyn FnMut(&mut Self, String) -> String) -> String {
        if !has_return(t, id, &self.bound) {
            let s = self.e(t, id);
            // the value of the whole body
            let s = if self.cps_tail { self.conv_ret(t, id, s) } else { s };
            return k(self, s);
        }
        match &t[id].kind {
            ExprKind::Scope { region_scope, value, .. } => {
                self.scopes.push(*region_scope);
                let r = self.cps(t, *value, k);
                self.scopes.pop();
                r
            }
            ExprKind::NeverToAny { source } | ExprKind::ValueExpr { source } => self.cps(t, *source, k),
            ExprKind::Return { value } => match value {
                Some(v) => {
                    let (v, save) = (*v, std::mem::replace(&mut self.cps_tail, true));
                    let r = self.cps(t, v, &mut |_, s| s);
                    self.cps_tail = save;
                    r
                }
                None => "()".into(),
            },
            ExprKind::If { cond, then, else_opt, .. } => {
                if has_return(t, *cond, &self.bound) {
                    return self.uns("return inside a condition of an inlined body");
                }
                let n = self.vars.len();
                let k = std::cell::RefCell::new(k);
                let r = self.if_g(t, *cond, &mut |me| me.cps(t, *then, &mut **k.borrow_mut()), Some(&mut |me: &mut Self| match else_opt {
                    Some(x) => me.cps(t, *x, &mut **k.borrow_mut()),
                    None => (*k.borrow_mut())(me, "()".into()),
                }));
                self.vars.truncate(n);
                r
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                match match_source {
                    rustc_hir::MatchSource::TryDesugar(_) => {
                        if let ExprKind::Call { args, .. } = &self.peel(t, *scrutinee).kind {
                            let at = self.ety(t, args[0]);
                            if self.is_option(at) {
                                let v = self.tmp();
                                return self.cps_value(t, args[0], &mut |me, s| {
                                    let rest = k(me, v.clone());
                                    format!("(match {s} {{ Some({v}) => {{ {rest} }}, None => None }})")
                                });
                            }
                            let to = self.try_to.last().copied();
                            if self.is_result(at) && to.map_or(false, |r| self.same_err(at, r)) {
                                let (v, w) = (self.tmp(), self.tmp());
                                return self.cps_value(t, args[0], &mut |me, s| {
                                    let rest = k(me, v.clone());
                                    format!("(match {s} {{ Ok({v}) => {{ {rest} }}, Err({w}) => Err({w}) }})")
                                });
                            }
                        }
                        self.uns("? operator")
                    }
                    rustc_hir::MatchSource::ForLoopDesugar => self.uns("return inside a loop of an inlined body"),
                    _ => self.cps_value(t, *scrutinee, &mut |me, s| me.match_g(t, s, arms, &mut |me, b| me.cps(t, b, k))),
                }
            }
            ExprKind::Block { block } => {
                let n = self.vars.len();
                let b = &t[*block];
                if b.targeted_by_break || !matches!(b.safety_mode, BlockSafety::Safe) {
                    return self.uns("labelled block");
                }
                let r = self.cps_block(t, *block, 0, k);
                self.vars.truncate(n);
                format!("{{\n{r}\n}}")
            }
            ExprKind::Loop { .. } | ExprKind::LogicalOp { .. } | ExprKind::Let { .. } | ExprKind::Assign { .. } | ExprKind::AssignOp { .. } | ExprKind::Closure(_) => self.uns("return inside an inlined body"),
            // a reborrow of a shared reference is the reference
            ExprKind::Borrow { borrow_kind: BorrowKind::Shared, arg } if matches!(self.peel(t, *arg).kind, ExprKind::Deref { arg: inner } if matches!(self.ety(t, inner).kind(), ty::Ref(_, _, m) if !m.is_mut())) => {
                let ExprKind::Deref { arg: inner } = self.peel(t, *arg).kind else { unreachable!() };
                self.cps(t, inner, k)
            }
            _ => {
                // evaluate the operand that may return first; what precedes it must not care
                let Some(ch) = operand_with_return(t, id, &self.bound) else { return self.uns("return inside an inlined body") };
                let v = self.tmp();
                let mut keys = vec![];
                let mut at = ch;
                loop {
                    keys.push(&t[at] as *const Expr<'tcx> as *const ());
                    match &t[at].kind { ExprKind::Scope { value, .. } => at = *value, _ => break }
                }
                self.cps_value(t, ch, &mut |me, s| {
                    let n = me.bound.len();
                    for x in &keys { me.bound.push((*x, v.clone())); }
                    let rest = me.cps(t, id, k);
                    me.bound.truncate(n);
                    format!("{{ let {v} = {s};\n{rest} }}")
                })
            }
        }
    }

    fn bound_to(&self, e: &Expr<'tcx>) -> Option<String> {
        let p = e as *const Expr<'tcx> as *const ();
        self.bound.iter().rev().find(|x| x.0 == p).map(|x| x.1.clone())
    }

    /// as `cps`, for a value that is not the value of the body
    fn cps_value(&mut self, t: Th<'_, 'tcx>, id: ExprId, k: &mut dyn FnMut(&mut Self, String) -> String) -> String {
        let save = std::mem::replace(&mut self.cps_tail, false);
        let r = self.cps(t, id, &mut |me, s| {
            me.cps_tail = save;
            let r = k(me, s);
            me.cps_tail = false;
            r
        });
        self.cps_tail = save;
        r
    }

    fn cps_block(&mut self, t: Th<'_, 'tcx>, b: BlockId, i: usize, k: &mut dyn FnMut(&mut Self, String) -> String) -> String {
        let bl = &t[b];
        if i == bl.stmts.len() {
            return match bl.expr {
                Some(e) => self.cps(t, e, k),
                None => k(self, "()".into()),
            };
        }
        match &t[bl.stmts[i]].kind {
            StmtKind::Expr { expr, .. } => self.cps_value(t, *expr, &mut |me, s| {
                let rest = me.cps_block(t, b, i + 1, k);
                format!("{s};\n{rest}")
            }),
            StmtKind::Let { pattern, initializer, else_block, .. } => {
                let mut pty = self.subst_t(pattern.ty);
                if let ty::Ref(_, x, _) = pty.kind() { pty = *x; }
                if matches!(pty.kind(), ty::Adt(a, _) if self.path(a.did()).contains("AssertKind")) || self.note_closure(t, pattern, *initializer) {
                    return self.cps_block(t, b, i + 1, k);
                }
                match (initializer, else_block) {
                    (Some(init), None) => self.cps_value(t, *init, &mut |me, s| {
                        let mut post = vec![];
                        let p = me.pat(t, pattern, false, &mut post);
                        let rest = me.cps_block(t, b, i + 1, k);
                        format!("let {p} = {s};\n{}{rest}", post.join("\n"))
                    }),
                    (Some(init), Some(eb)) => {
                        if has_return(t, *init, &self.bound) {
                            return self.uns("return inside an inlined body");
                        }
                        let s = self.e(t, *init);
                        let mut post = vec![];
                        let p = self.rpat(t, pattern, false, &mut post);
                        let rest = self.cps_block(t, b, i + 1, k);
                        let save = std::mem::replace(&mut self.cps_tail, false);
                        let el = self.cps_block(t, *eb, 0, &mut |_, s| s);
                        self.cps_tail = save;
                        format!("match {s} {{ {p} => {{ {} {rest} }}, _ => {{ {el} }} }}", post.join(" "))
                    }
                    (None, _) => {
                        let mut post = vec![];
                        let p = self.pat(t, pattern, false, &mut post);
                        let ty = self.subst_t(pattern.ty);
                        let ts = self.ty(ty);
                        let rest = self.cps_block(t, b, i + 1, k);
                        format!("let {p}: {ts};\n{rest}")
                    }
                }
            }
        }
    }

    /// `let f = |..| ..` with captures by reference: `f` stands for its body.
    fn note_closure(&mut self, t: Th<'_, 'tcx>, p: &Pat<'tcx>, init: Option<ExprId>) -> bool {
        let (PatKind::Binding { var, subpattern: None, .. }, Some(i)) = (&p.kind, init) else { return false };
        let ExprKind::Closure(c) = &self.peel(t, i).kind else { return false };
        let tcx = self.cr.tcx;
        let hid = tcx.local_def_id_to_hir_id(c.closure_id);
        match tcx.hir_node(hid) {
            rustc_hir::Node::Expr(rustc_hir::Expr { kind: rustc_hir::ExprKind::Closure(hc), .. }) if matches!(hc.capture_clause, rustc_hir::CaptureBy::Ref) => {
                self.closures.insert(var.0);
                true
            }
            _ => {
                self.uns("closure that moves its captures");
                true
            }
        }
    }

    fn is_closure_place(&self, t: Th<'_, 'tcx>, id: ExprId) -> bool {
        match &self.peel(t, id).kind {
            ExprKind::Closure(_) => true,
            ExprKind::VarRef { id } | ExprKind::UpvarRef { var_hir_id: id, .. } => self.closures.contains(&id.0),
            ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } => self.is_closure_place(t, *arg),
            _ => false,
        }
    }

    /// The variable a place expression names.
    fn place_var(&self, t: Th<'_, 'tcx>, id: ExprId) -> Option<rustc_hir::HirId> {
        match &self.peel(t, id).kind {
            ExprKind::VarRef { id } | ExprKind::UpvarRef { var_hir_id: id, .. } => Some(id.0),
            ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } => self.place_var(t, *arg),
            _ => None,
        }
    }

    /// A closure or function item passed as a function pointer or `dyn Fn`, as it was before the coercion.
    fn uncoerced(&self, t: Th<'_, 'tcx>, a: &Arg<'tcx>) -> Arg<'tcx> {
        let mut a = a.clone();
        while let Some(id) = a.id {
            let e = self.peel(t, id);
            let mut src = None;
            if let ExprKind::PointerCoercion { source, .. } = &e.kind { src = Some(*source); }
            if let ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } = &e.kind {
                if matches!(self.peel(t, *arg).kind, ExprKind::PointerCoercion { .. } | ExprKind::Deref { .. } | ExprKind::Borrow { .. }) { src = Some(*arg); }
            }
            match src {
                Some(s) => { a.id = Some(s); a.ty = self.ety(t, s); }
                None => break,
            }
        }
        a
    }

    /// Whether an argument is a function this printer can apply: a closure it sees the body of, or a
    /// function item.
    fn is_fn_value(&self, t: Th<'_, 'tcx>, a: &Arg<'tcx>) -> bool {
        let a = &self.uncoerced(t, a);
        if a.id.and_then(|i| self.place_var(t, i)).map_or(false, |v| self.fparams.contains_key(&v)) {
            return true;
        }
        let mut ty = a.ty;
        while let Some(x) = ty.builtin_deref(true) { ty = x; }
        match ty.kind() {
            ty::FnDef(..) => true,
            ty::Closure(..) => a.id.map_or(false, |i| self.is_closure_place(t, i)),
            _ => false,
        }
    }

    fn for_next(&self, t: Th<'_, 'tcx>, scrut: ExprId) -> Option<(usize, &'static str, Vec<Stage<'tcx>>)> {
        if let ExprKind::Call { args, .. } = &self.peel(t, scrut).kind {
            let mut e = self.peel(t, *args.first()?);
            while let ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } = &e.kind { e = self.peel(t, *arg); }
            if let ExprKind::VarRef { id } = &e.kind {
                return self.for_stages.get(&id.0).cloned();
            }
        }
        None
    }

    fn is_whole_place(&self, t: Th<'_, 'tcx>, id: ExprId) -> bool {
        match &self.peel(t, id).kind {
            ExprKind::VarRef { id } | ExprKind::UpvarRef { var_hir_id: id, .. } => self.whole.contains(&id.0),
            ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } => self.is_whole_place(t, *arg),
            _ => false,
        }
    }

    // ----------------------------------------------------------------- calls
    fn a(&mut self, t: Th<'_, 'tcx>, a: &Arg<'tcx>) -> String {
        match (&a.s, a.id) {
            (Some(s), _) => s.clone(),
            (None, Some(id)) => self.e(t, id),
            _ => self.uns("argument"),
        }
    }

    fn sarg(s: impl Into<String>, ty: Ty<'tcx>) -> Arg<'tcx> {
        Arg { id: None, s: Some(s.into()), ty }
    }

    /// Applies a function-valued argument (closure, fn item, constructor) to values.
    fn apply(&mut self, t: Th<'_, 'tcx>, f: &Arg<'tcx>, vals: Vec<(String, Ty<'tcx>)>, rt: Ty<'tcx>) -> String {
        let tcx = self.cr.tcx;
        let f = &self.uncoerced(t, f);
        let mut fty = f.ty;
        while let Some(x) = fty.builtin_deref(true) { fty = x; }
        // a parameter of an inlined function that stands for the caller's closure
        if let Some(&(aty, aargs)) = f.id.and_then(|i| self.place_var(t, i)).and_then(|v| self.fparams.get(&v)) {
            let save = std::mem::replace(&mut self.args, aargs);
            let g = Arg { id: None, s: None, ty: aty };
            let r = self.apply(t, &g, vals, rt);
            self.args = save;
            return r;
        }
        match *fty.kind() {
            ty::Closure(cid, _) => {
                let Some(local) = cid.as_local() else { return self.uns("foreign closure") };
                if let Some(id) = f.id {
                    if !self.is_closure_place(t, id) {
                        return self.uns("closure bound to a variable");
                    }
                }
                let Ok((steal, root)) = tcx.thir_body(local) else { return self.uns("closure body") };
                let thir = steal.borrow();
                let ct: Th<'_, 'tcx> = &thir;
                let mut pre = String::new();
                let pats: Vec<&Pat<'tcx>> = ct.params.iter().filter_map(|p| p.pat.as_deref()).collect();
                if pats.len() != vals.len() {
                    return self.uns("closure arity");
                }
                let n = self.vars.len();
                for (p, (v, _)) in pats.iter().zip(vals.iter()) {
                    let mut post = vec![];
                    let ps = self.pat(ct, p, false, &mut post);
                    pre.push_str(&format!("let {ps} = {v}; {}", post.join(" ")));
                }
                self.depth += 1;
                let tpl = self.next_cret.take();
                self.cret.push(tpl);
                let b = if self.cret.last().unwrap().is_none() && has_return(ct, root, &self.bound) {
                    let save = std::mem::replace(&mut self.ret_iter, false);
                    let save2 = std::mem::replace(&mut self.cps_tail, true);
                    let out = self.fn_out(f);
                    self.try_to.push(out);
                    let b = self.cps(ct, root, &mut |_, v| v);
                    self.try_to.pop();
                    self.ret_iter = save;
                    self.cps_tail = save2;
                    b
                } else {
                    self.e(ct, root)
                };
                self.cret.pop();
                self.depth -= 1;
                self.vars.truncate(n);
                format!("{{ {pre} {b} }}")
            }
            ty::FnDef(def, gargs) => {
                let gargs = gargs.no_bound_vars().unwrap_or_else(|| gargs.skip_binder());
                let args = vals.into_iter().map(|(s, ty)| Self::sarg(s, ty)).collect();
                self.call(t, def, gargs, args, rt)
            }
            ty::Param(_) => {
                let fs = self.a(t, f);
                format!("{fs}({})", vals.into_iter().map(|x| x.0).collect::<Vec<_>>().join(", "))
            }
            _ => self.uns("function value"),
        }
    }

    fn fn_out(&self, f: &Arg<'tcx>) -> Ty<'tcx> {
        let tcx = self.cr.tcx;
        match *f.ty.kind() {
            ty::Closure(_, args) => self.norm(args.as_closure().sig().skip_binder().output()),
            ty::FnDef(..) => self.norm(f.ty.fn_sig(tcx).skip_binder().output()),
            _ => tcx.types.unit,
        }
    }

    /// The adapters between a source and `a`, first to last, and the source.
    fn stages(&mut self, t: Th<'_, 'tcx>, a: &Arg<'tcx>) -> (Arg<'tcx>, Vec<Stage<'tcx>>) {
        let Some(id) = a.id else { return (a.clone(), vec![]) };
        let mut e = self.peel(t, id);
        if let ExprKind::Borrow { arg, .. } = &e.kind { e = self.peel(t, *arg); }
        if let ExprKind::Call { ty: fty, args, .. } = &e.kind {
            if let ty::FnDef(d, ga) = *self.subst_t(*fty).kind() {
                let name = self.cr.tcx.item_name(d).to_string();
                let tr = self.cr.tcx.trait_of_assoc(d).map(|d| self.path(d));
                let n = ["map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied"].into_iter().find(|x| *x == name);
                if let (Some(name), Some("std::iter::Iterator")) = (n, tr.as_deref()) {
                    let args: Vec<Arg<'tcx>> = args.iter().map(|x| Arg { id: Some(*x), s: None, ty: self.ety(t, *x) }).collect();
                    let _ = ga;
                    let Some(item) = self.item_of(args[0].ty) else { return (a.clone(), vec![]) };
                    if (name == "cloned" || name == "copied") && !matches!(item.kind(), ty::Ref(..)) { return (a.clone(), vec![]); }
                    if name == "flatten" && !self.is_option(item) { return (a.clone(), vec![]); }
                    if name == "flat_map" && !self.is_option(self.fn_out(&args[1])) { return (a.clone(), vec![]); }
                    let (b, mut st) = self.stages(t, &args[0]);
                    st.push(Stage { name, f: args.get(1).cloned(), item });
                    return (b, st);
                }
            }
        }
        (a.clone(), vec![])
    }

    /// What the adapters passed on the way do to an item, one item at a time.
    fn run_stages(&mut self, t: Th<'_, 'tcx>, id: usize, st: &[Stage<'tcx>], x: String) -> (String, String, String) {
        let (mut open, mut shut, mut cur) = (String::new(), String::new(), x);
        for (k, g) in st.iter().enumerate() {
            let y = self.fresh_name(&format!("y_{id}_{}", k + 1));
            let fo = g.f.as_ref().map(|f| self.fn_out(f));
            match g.name {
                "map" => {
                    let b = self.apply(t, g.f.as_ref().unwrap(), vec![(cur, g.item)], fo.unwrap());
                    open.push_str(&format!("let {y} = {b}; "));
                    cur = y;
                }
                "filter" => {
                    let b = self.apply(t, g.f.as_ref().unwrap(), vec![(format!("(&{cur})"), Ty::new_imm_ref(self.cr.tcx, self.cr.tcx.lifetimes.re_erased, g.item))], fo.unwrap());
                    open.push_str(&format!("let {y} = {b}; if {y} {{ "));
                    shut.push_str(" }");
                }
                "flatten" => {
                    open.push_str(&format!("if let Some({y}) = {cur} {{ "));
                    shut.push_str(" }");
                    cur = y;
                }
                "filter_map" | "flat_map" => {
                    let b = self.apply(t, g.f.as_ref().unwrap(), vec![(cur, g.item)], fo.unwrap());
                    open.push_str(&format!("if let Some({y}) = {b} {{ "));
                    shut.push_str(" }");
                    cur = y;
                }
                _ => {
                    let inner = match g.item.kind() { ty::Ref(_, x, _) => *x, _ => g.item };
                    let b = self.clone_of(cur, inner);
                    open.push_str(&format!("let {y} = {b}; "));
                    cur = y;
                }
            }
        }
        (open, cur, shut)
    }

    /// A loop over the model iterator `src`.
    fn iter_loop(&mut self, t: Th<'_, 'tcx>, kind: &str, src: String, pre: String, post: String, prefix: &str, st: Vec<Stage<'tcx>>, vars: Vec<(String, String)>, body: impl FnOnce(&mut Self, usize, String) -> String) -> String {
        self.nloops += 1;
        let id = self.nloops;
        let itv = self.fresh_name(&format!("it_{id}"));
        let n = self.vars.len();
        self.vars.push((itv.clone(), prefix.to_string()));
        self.vars.extend(vars);
        let x = self.fresh_name(&format!("x_{id}"));
        let lp = self.print_loop(t, id, kind, |me| {
            let (open, cur, shut) = me.run_stages(t, id, &st, x.clone());
            let b = body(me, id, cur);
            let b = format!("{open}{b}{shut}");
            format!("match {prefix}_next(&mut {itv}) {{ None => {{ break; }}, Some({x}) => {{ {b} }} }}")
        });
        self.vars.truncate(n);
        format!("{{ let mut {itv} = {src};\nlet ghost src_{id} = {itv};\n{pre}\n/*@pre {id}*/\n{lp};\n/*@post {id}*/\n{post} }}")
    }

    fn local_call(&mut self, t: Th<'_, 'tcx>, name: String, def: DefId, gargs: GenericArgsRef<'tcx>, args: Vec<Arg<'tcx>>) -> String {
        let tcx = self.cr.tcx;
        let known = self.cr.contracted.is_empty() || self.cr.contracted.contains(&name);
        let takes_fn = args.iter().any(|a| self.is_fn_value(t, a));
        if (!known || takes_fn) && def.is_local() && !self.inline_stack.contains(&def) && self.inline_stack.len() < 4 && tcx.is_mir_available(def) {
            // inline the body of a function without a contract
            let save = (self.unsupported.len(), self.nloops, self.loops.len());
            if let Some(s) = self.inline(t, def, gargs, &args) {
                self.inlined.push(name);
                return s;
            }
            self.unsupported.truncate(save.0);
            self.nloops = save.1;
            self.loops.truncate(save.2);
        }
        self.calls.insert(name.clone());
        // erased iterator parameters are passed in the model type
        let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
        let preds = tcx.clauses_of(def).instantiate_identity(tcx).clauses;
        let mut v = vec![];
        for (i, a) in args.iter().enumerate() {
            let s = self.a(t, a);
            let mut s2 = s;
            if let Some(ft) = sig.inputs().get(i) {
                if let ty::Param(p) = ft.kind() {
                    let erased = preds.iter().any(|c| match c.as_ref().skip_normalization().kind().skip_binder() {
                        ty::ClauseKind::Trait(tp) => tp.trait_ref.self_ty().is_param(p.index) && (tp.trait_ref.def_id == self.cr.iter_trait || tp.trait_ref.def_id == self.cr.intoiter_trait),
                        _ => false,
                    });
                    if erased && p.name.as_str() != "Self" {
                        s2 = self.to_it(s2, a.ty).0;
                    }
                }
            }
            v.push(s2);
        }
        format!("{name}({})", v.join(", "))
    }

    fn inline(&mut self, t: Th<'_, 'tcx>, def: DefId, gargs: GenericArgsRef<'tcx>, args: &[Arg<'tcx>]) -> Option<String> {
        let tcx = self.cr.tcx;
        let local = def.as_local()?;
        if tcx.opt_parent(def).map_or(false, |p| matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_builtin_derived(p)) {
            return None;
        }
        let (steal, root) = tcx.thir_body(local).ok()?;
        let thir = steal.borrow();
        let ct: Th<'_, 'tcx> = &thir;
        let k = self.unsupported.len();
        let mut argv: Vec<String> = vec![];
        let mut fns = vec![];
        for (i, a) in args.iter().enumerate() {
            if self.is_fn_value(t, a) {
                let Some(PatKind::Binding { var, subpattern: None, .. }) = ct.params.raw.get(i).and_then(|p| p.pat.as_deref()).map(|p| &p.kind) else { return None };
                let a = &self.uncoerced(t, a);
                let mut ty = a.ty;
                while let Some(x) = ty.builtin_deref(true) { ty = x; }
                let v = match a.id.and_then(|i| self.place_var(t, i)).and_then(|v| self.fparams.get(&v)) {
                    Some(&v) => v,
                    None => (ty, self.args),
                };
                fns.push((i, var.0, v));
            } else {
                let s = self.a(t, a);
                argv.push(s);
            }
        }
        for (_, v, f) in &fns {
            self.fparams.insert(*v, *f);
            self.closures.insert(*v);
        }
        let saved = self.args;
        self.inline_stack.push(def);
        self.cret.push(None);
        self.args = gargs;
        self.depth += 1;
        let save_ret = std::mem::replace(&mut self.ret_iter, false);
        let n = self.vars.len();
        // names of a function inlined twice are re-created
        let mut pats = vec![];
        let mut post = vec![];
        for (i, p) in ct.params.iter().enumerate() {
            if fns.iter().any(|x| x.0 == i) {
                continue;
            }
            match p.pat.as_deref() {
                Some(pp) => {
                    let s = self.pat(ct, pp, false, &mut post);
                    pats.push(s);
                }
                None => pats.push("_".into()),
            }
        }
        let sigout = tcx.fn_sig(def).instantiate(tcx, gargs).skip_norm_wip().skip_binder().output();
        self.ret_iter = matches!(sigout.kind(), ty::Alias(_, al) if matches!(al.kind, ty::AliasTyKind::Opaque{..})) && self.cr.is_iter(self.env, sigout);
        let b = if has_return(ct, root, &self.bound) {
            let save = std::mem::replace(&mut self.cps_tail, true);
            self.try_to.push(sigout);
            let b = self.cps(ct, root, &mut |_, v| v);
            self.try_to.pop();
            self.cps_tail = save;
            b
        } else {
            let b = self.e(ct, root);
            self.conv_ret(ct, root, b)
        };
        self.ret_iter = save_ret;
        self.vars.truncate(n);
        self.depth -= 1;
        self.args = saved;
        self.cret.pop();
        self.inline_stack.pop();
        for (_, v, _) in &fns {
            self.fparams.remove(v);
            self.closures.remove(v);
        }
        if self.unsupported.len() > k {
            return None;
        }
        let lets = if pats.is_empty() { String::new() }
            else if pats.len() == 1 { format!("let {} = {};", pats[0], argv[0]) }
            else { format!("let ({}) = ({});", pats.join(", "), argv.join(", ")) };
        Some(format!("{{ {lets} {} {b} }}", post.join(" ")))
    }

    fn ctor(&mut self, t: Th<'_, 'tcx>, def: DefId, args: &[Arg<'tcx>]) -> String {
        let tcx = self.cr.tcx;
        let parent = tcx.parent(def);
        let head = match tcx.def_kind(parent) {
            DefKind::Variant => {
                let adt = tcx.parent(parent);
                let ad = tcx.adt_def(adt);
                let v = ad.variant_with_id(parent);
                self.variant_path(adt, v)
            }
            _ => match self.cr.adt_names.get(&parent) {
                Some(n) => n.clone(),
                None => self.uns("constructor"),
            },
        };
        let v: Vec<String> = args.iter().map(|a| self.a(t, a)).collect();
        format!("{head}({})", v.join(", "))
    }

    fn unreached(&mut self) -> String {
        let ty = self.never.last().cloned().unwrap_or_else(|| "()".into());
        let ty = if ty == "!" { "()".to_string() } else { ty };
        format!("unreached::<{ty}>()")
    }

    fn clone_of(&mut self, s: String, t: Ty<'tcx>) -> String {
        // s : &t
        match t.kind() {
            ty::Param(_) => format!("vclone({s})"),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => deref(&s),
            ty::Ref(_, _, m) if !m.is_mut() => deref(&s),
            ty::Adt(a, aa) => {
                if self.is_option(t) {
                    let v = self.tmp();
                    let inner = self.clone_of(v.clone(), aa.type_at(0));
                    return format!("(match {s} {{ Some({v}) => Some({inner}), None => None }})");
                }
                if self.is_bset(t) {
                    return format!("BSet_clone({s})");
                }
                if self.is_few(t) || self.adt_is(t, "std::cmp::Ordering") {
                    return self.uns("clone");
                }
                if a.did().is_local() {
                    let n = format!("{}_Clone_clone", self.cr.tname(t));
                    self.calls.insert(n.clone());
                    return format!("{n}({s})");
                }
                self.uns(format!("clone of {t}"))
            }
            _ => self.uns(format!("clone of {t}")),
        }
    }

    /// `Default::default()` of a type.
    fn default_of(&mut self, ty: Ty<'tcx>) -> String {
        if self.cr.is_local_adt(ty) {
            let f = format!("{}_Default_default", self.cr.tname(ty));
            self.calls.insert(f.clone());
            return format!("{f}()");
        }
        if self.is_option(ty) {
            return "None".into();
        }
        if self.is_bset(ty) {
            return "BSet_new()".into();
        }
        match ty.kind() {
            ty::Param(_) => {
                let s = self.ty(ty);
                format!("vdefault::<{s}>()")
            }
            ty::Bool => "false".into(),
            _ => self.uns(format!("default of {ty}")),
        }
    }

    fn peel_arg(&self, s: String, t: Ty<'tcx>) -> (String, Ty<'tcx>) {
        // s : &t ; strip extra reference layers from t
        let mut s = s;
        let mut t = t;
        while let ty::Ref(_, x, _) = t.kind() {
            s = deref(&s);
            t = *x;
        }
        (s, t)
    }

    fn compare(&mut self, op: &str, l: String, lt: Ty<'tcx>, r: String, rt: Ty<'tcx>) -> String {
        // l : &lt, r : &rt
        let (l, lt) = self.peel_arg(l, lt);
        let (r, rt) = self.peel_arg(r, rt);
        match lt.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let o = match op { "lt" => "<", "le" => "<=", "gt" => ">", "ge" => ">=", "eq" => "==", "ne" => "!=", _ => {
                    if op == "cmp" && !lt.is_bool() { return format!("vcmp({l}, {r})"); }
                    return self.uns("comparison"); } };
                format!("({} {o} {})", deref(&l), deref(&r))
            }
            ty::Str if op == "eq" || op == "ne" => format!("({}str_eq({l}, {r}))", if op == "eq" { "" } else { "!" }),
            ty::Param(_) => format!("v{op}({l}, {r})"),
            ty::Adt(a, aa) => {
                if self.adt_is(lt, "std::cmp::Ordering") && (op == "eq" || op == "ne") {
                    let s = format!("ord_eq({l}, {r})");
                    return if op == "eq" { s } else { format!("(!{s})") };
                }
                if self.is_option(lt) && (op == "eq" || op == "ne") {
                    let it = aa.type_at(0);
                    let (x, y) = (self.tmp(), self.tmp());
                    let c = self.compare("eq", x.clone(), it, y.clone(), it);
                    let s = format!("(match ({l}, {r}) {{ (Some({x}), Some({y})) => {c}, (None, None) => true, _ => false }})");
                    return if op == "eq" { s } else { format!("(!{s})") };
                }
                if self.adt_is(lt, "std::vec::Vec") && matches!(rt.kind(), ty::Array(..)) && op == "eq" {
                    if let ty::Array(x, n) = rt.kind() {
                        let k = n.try_to_target_usize(self.cr.tcx).unwrap_or(99);
                        if k <= 4 {
                            let lv = self.tmp();
                            let rv = self.tmp();
                            let mut conds = vec![format!("{lv}.len() == {k}")];
                            for i in 0..k {
                                conds.push(self.compare("eq", format!("(&{lv}[{i}])"), *x, format!("(&{rv}.f{i})"), *x));
                            }
                            return format!("{{ let {lv} = {l}; let {rv} = {r}; {} }}", conds.join(" && "));
                        }
                    }
                }
                if self.path(a.did()).ends_with("BTreeSet") && (op == "eq" || op == "ne") {
                    let s = format!("BSet_eq({l}, {r})");
                    return if op == "eq" { s } else { format!("(!{s})") };
                }
                if a.did().is_local() {
                    let n = self.cr.tname(lt);
                    match op {
                        "eq" | "ne" => {
                            let f = format!("{n}_PartialEq_eq");
                            self.calls.insert(f.clone());
                            let s = format!("{f}({l}, {r})");
                            return if op == "eq" { s } else { format!("(!{s})") };
                        }
                        "partial_cmp" | "lt" | "le" | "gt" | "ge" => {
                            let f = format!("{n}_PartialOrd_partial_cmp");
                            self.calls.insert(f.clone());
                            let s = format!("{f}({l}, {r})");
                            return match op {
                                "partial_cmp" => s,
                                "lt" => format!("matches!({s}, Some(Ordering::Less))"),
                                "gt" => format!("matches!({s}, Some(Ordering::Greater))"),
                                "le" => format!("matches!({s}, Some(Ordering::Less) | Some(Ordering::Equal))"),
                                _ => format!("matches!({s}, Some(Ordering::Greater) | Some(Ordering::Equal))"),
                            };
                        }
                        "cmp" => {
                            let f = format!("{n}_Ord_cmp");
                            self.calls.insert(f.clone());
                            return format!("{f}({l}, {r})");
                        }
                        _ => {}
                    }
                }
                self.uns(format!("comparison {op} of {lt}"))
            }
            ty::Tuple(ts) if op == "eq" || op == "ne" => {
                let mut c = vec![];
                for (i, x) in ts.iter().enumerate() {
                    c.push(self.compare("eq", format!("(&{}.{i})", deref(&l)), x, format!("(&{}.{i})", deref(&r)), x));
                }
                let s = format!("({})", c.join(" && "));
                if op == "eq" { s } else { format!("(!{s})") }
            }
            _ => self.uns(format!("comparison {op} of {lt}")),
        }
    }

    pub fn call(&mut self, t: Th<'_, 'tcx>, def: DefId, gargs: GenericArgsRef<'tcx>, args: Vec<Arg<'tcx>>, rt: Ty<'tcx>) -> String {
        let tcx = self.cr.tcx;
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            return self.ctor(t, def, &args);
        }
        let path = self.path(def);
        let name = tcx.item_name(def).to_string();
        // ------------------------------------------------ panics
        if !def.is_local() && (path.contains("panic") || name == "assert_failed" || path.contains("unreachable_display")) {
            return self.unreached();
        }
        // ------------------------------------------------ local items
        if let Some(tr) = tcx.trait_of_assoc(def) {
            return self.trait_call(t, tr, def, &name, &path, gargs, args, rt);
        }
        if def.is_local() {
            let f = match tcx.opt_parent(def) {
                Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => self.cr.mangle_impl_item(p, &name),
                _ => name.clone(),
            };
            return self.local_call(t, f, def, gargs, args);
        }
        self.std_call(t, &path, &name, args, rt)
    }

    fn trait_call(&mut self, t: Th<'_, 'tcx>, tr: DefId, def: DefId, name: &str, path: &str, gargs: GenericArgsRef<'tcx>, args: Vec<Arg<'tcx>>, rt: Ty<'tcx>) -> String {
        let tcx = self.cr.tcx;
        let trp = self.path(tr);
        let ntr = tcx.generics_of(tr).count();
        let self_ty = gargs.type_at(0);
        match trp.as_str() {
            "std::cmp::PartialOrd" | "std::cmp::Ord" | "std::cmp::PartialEq" => {
                if args.len() == 2 && ["lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp"].contains(&name) {
                    let l = self.a(t, &args[0]);
                    let r = self.a(t, &args[1]);
                    let (Some(lt), Some(rt)) = (args[0].ty.builtin_deref(true), args[1].ty.builtin_deref(true)) else { return self.uns("comparison operands") };
                    return self.compare(name, l, lt, r, rt);
                }
                if name == "max" || name == "min" {
                    if matches!(self_ty.kind(), ty::Param(_)) {
                        let l = self.a(t, &args[0]);
                        let r = self.a(t, &args[1]);
                        return format!("v{name}({l}, {r})");
                    }
                }
                return self.uns(format!("call {path}"));
            }
            "std::clone::Clone" | "std::borrow::ToOwned" if name == "clone" || name == "to_owned" => {
                let s = self.a(t, &args[0]);
                return self.clone_of(s, self_ty);
            }
            "std::default::Default" => {
                if self.cr.is_local_adt(self_ty) {
                    // falls through to local impl lookup
                } else {
                    return self.default_of(self_ty);
                }
            }
            "std::convert::Into" => {
                // U: From<T>
                let dst = gargs.type_at(1);
                let from = tcx.get_diagnostic_item(rustc_span::sym::From);
                if dst == self_ty {
                    return self.a(t, &args[0]);
                }
                if let Some(from) = from {
                    let ga = tcx.mk_args(&[dst.into(), self_ty.into()]);
                    let from_fn = tcx.associated_items(from).in_definition_order().next().unwrap().def_id;
                    return self.trait_call(t, from, from_fn, "from", "std::convert::From::from", ga, args, rt);
                }
                return self.uns("into");
            }
            "std::convert::From" => {
                if gargs.type_at(1) == self_ty {
                    return self.a(t, &args[0]);
                }
                if self.is_option(self_ty) {
                    let s = self.a(t, &args[0]);
                    return format!("Some({s})");
                }
            }
            "std::str::FromStr" if matches!(self_ty.kind(), ty::Param(_)) => {
                let s = self.a(t, &args[0]);
                let ts = self.ty(self_ty);
                return format!("vparse::<{ts}>({s})");
            }
            "std::fmt::Display" if name == "fmt" => {
                let s = self.a(t, &args[0]);
                let f = self.a(t, &args[1]);
                let (s, ty) = self.peel_arg(s, args[0].ty.builtin_deref(true).unwrap_or(self_ty));
                match ty.kind() {
                    ty::Param(_) => return format!("Fmt_show({f}, {s})"),
                    ty::Str => return format!("Fmt_write_str({f}, {s})"),
                    _ => {}
                }
            }
            "std::fmt::Write" if name == "write_str" || name == "write_char" => {
                if self.adt_is(self_ty, "std::fmt::Formatter") {
                    let f = self.a(t, &args[0]);
                    let s = self.a(t, &args[1]);
                    return format!("Fmt_{name}({f}, {s})");
                }
            }
            "std::ops::FnOnce" | "std::ops::Fn" | "std::ops::FnMut" => {
                let mut self_ty = self_ty;
                while let Some(x) = self_ty.builtin_deref(true) { self_ty = x; }
                let param = args[0].id.and_then(|i| self.place_var(t, i)).map_or(false, |v| self.fparams.contains_key(&v));
                let applied = param || matches!(self_ty.kind(), ty::Closure(..) | ty::FnDef(..));
                let f = if applied { String::new() } else { self.a(t, &args[0]) };
                if let Some(id) = args[1].id {
                    if let ExprKind::Tuple { fields } = &self.peel(t, id).kind {
                        let v: Vec<String> = fields.iter().map(|x| self.e(t, *x)).collect();
                        if applied {
                            if matches!(self_ty.kind(), ty::Closure(..)) && !args[0].id.map_or(false, |i| self.is_closure_place(t, i)) {
                                return self.uns("call of a closure variable");
                            }
                            let vals = fields.iter().zip(v).map(|(x, s)| (s, self.ety(t, *x))).collect();
                            let fa = Arg { id: args[0].id, s: None, ty: self_ty };
                            return self.apply(t, &fa, vals, rt);
                        }
                        return format!("{f}({})", v.join(", "));
                    }
                }
                return self.uns("call");
            }
            "std::ops::Sub" if args.iter().all(|a| matches!(a.ty.kind(), ty::Param(_))) => {
                let l = self.a(t, &args[0]);
                let r = self.a(t, &args[1]);
                return format!("vsub({l}, {r})");
            }
            "std::borrow::Borrow" if matches!(self_ty.kind(), ty::Param(_)) => {
                let s = self.a(t, &args[0]);
                let (a, b) = (self.ty(self_ty), self.ty(gargs.type_at(1)));
                return format!("vborrow::<{a}, {b}>({s})");
            }
            "std::ops::Add" | "std::ops::Sub" | "std::ops::Mul" | "std::ops::Not" | "std::ops::BitAnd" | "std::ops::BitOr" => {
                let mut v = vec![];
                for a in &args {
                    let mut s = self.a(t, a);
                    let mut ty = a.ty;
                    while let ty::Ref(_, x, _) = ty.kind() {
                        s = deref(&s);
                        ty = *x;
                    }
                    if !ty.is_integral() && !ty.is_bool() {
                        return self.uns(format!("operator {path} on {ty}"));
                    }
                    v.push(s);
                }
                return match name {
                    "add" => format!("({} + {})", v[0], v[1]),
                    "sub" => format!("({} - {})", v[0], v[1]),
                    "mul" => format!("({} * {})", v[0], v[1]),
                    "not" => format!("(!{})", v[0]),
                    _ => self.uns(format!("operator {path}")),
                };
            }
            "std::ops::Index" => {
                let s = self.a(t, &args[0]);
                let i = self.a(t, &args[1]);
                if self.adt_is(self_ty, "std::vec::Vec") && args[1].ty.is_integral() {
                    return format!("(&{}[{i}])", deref(&s));
                }
                if self_ty.is_str() {
                    for (p, f) in [("std::ops::RangeTo", "to"), ("std::ops::RangeFrom", "from"), ("std::ops::Range", "range")] {
                        if self.adt_is(args[1].ty, p) {
                            return format!("str_{f}({s}, {i})");
                        }
                    }
                }
                return self.uns("index");
            }
            "std::ops::Deref" | "std::ops::DerefMut" if self.adt_is(self_ty, "std::vec::Vec") => {
                // a slice of the whole vector: modelled by the vector
                return self.a(t, &args[0]);
            }
            "std::ops::Deref" | "std::convert::AsRef" | "std::borrow::Borrow" => {
                return self.uns(format!("call {path}"));
            }
            "std::iter::Iterator" | "std::iter::DoubleEndedIterator" | "std::iter::IntoIterator" | "std::iter::ExactSizeIterator" | "std::iter::Extend" | "std::iter::FromIterator" => {
                if let Some(s) = self.iter_call(t, name, self_ty, &args, rt) {
                    return s;
                }
            }
            _ => {}
        }
        if tr.is_local() || self.cr.is_local_adt(self_ty.peel_refs()) || matches!(self_ty.kind(), ty::Int(_) | ty::Uint(_)) {
            if matches!(self_ty.kind(), ty::Param(_)) && tr.is_local() {
                let s = self.ty(self_ty);
                let v: Vec<String> = args.iter().map(|a| self.a(t, a)).collect();
                return format!("{s}::{name}({})", v.join(", "));
            }
            let targs: Vec<_> = gargs.iter().take(ntr).collect();
            if let Some((im, iargs)) = self.cr.find_impl(tr, &targs, self.env) {
                let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                let f = self.cr.mangle_trait_item(trr, name);
                let item = tcx.associated_items(im).in_definition_order().find(|i| i.name().as_str() == name).map(|i| i.def_id);
                let (d, ga) = match item {
                    Some(d) => (d, {
                        // impl args followed by the method's own args
                        let own: Vec<_> = gargs.iter().skip(ntr).collect();
                        let mut all: Vec<_> = iargs.iter().collect();
                        all.extend(own);
                        tcx.mk_args(&all)
                    }),
                    None => (def, gargs),
                };
                if !d.is_local() {
                    return self.uns(format!("call {path} on {self_ty}"));
                }
                return self.local_call(t, f, d, ga, args);
            }
        }
        self.uns(format!("call {path} on {self_ty}"))
    }

    fn iter_call(&mut self, t: Th<'_, 'tcx>, name: &str, self_ty: Ty<'tcx>, args: &[Arg<'tcx>], rt: Ty<'tcx>) -> Option<String> {
        let peeled = self_ty;
        let is_ref_iter = matches!(peeled.kind(), ty::Ref(_, x, m) if m.is_mut() && self.cr.is_iter(self.env, *x));
        if is_ref_iter {
            return Some(self.uns("iterator by reference"));
        }
        let local_iter = self.cr.is_local_adt(peeled) && self.cr.is_iter(self.env, peeled);
        match name {
            "into_iter" => {
                let s = self.a(t, &args[0]);
                if self.cr.is_iter(self.env, peeled) {
                    return Some(s); // identity on iterators
                }
                if self.cr.is_local_adt(peeled.peel_refs()) {
                    return None; // local IntoIterator impl
                }
                return Some(self.to_it(s, peeled).0);
            }
            "next" | "next_back" => {
                if local_iter && args[0].id.map_or(false, |i| self.is_whole_place(t, i)) {
                    let s = self.a(t, &args[0]);
                    let p = self.model_prefix(peeled);
                    return Some(format!("{p}_{name}({s})"));
                }
                if local_iter {
                    return None;
                }
                let s = self.a(t, &args[0]);
                if self.is_few(peeled) {
                    return Some(self.uns("next on Few"));
                }
                let p = self.model_prefix(peeled);
                return Some(format!("{p}_{name}({s})"));
            }
            "extend" if self.is_bset(peeled) || self.adt_is(peeled, "std::vec::Vec") => {
                let dst = self.a(t, &args[0]);
                let prefix = self.model_prefix(args[1].ty);
                if prefix != "It" { return Some(self.uns("extend from references")); }
                let (base, st) = self.stages(t, &args[1]);
                let prefix = self.model_prefix(base.ty);
                let src = self.a(t, &base);
                let (src, _) = self.to_it(src, base.ty);
                let bs = self.is_bset(peeled);
                return Some(self.iter_loop(t, "extend", src, String::new(), String::new(), prefix, st, vec![], move |_, _, x| {
                    if bs { format!("BSet_insert({dst}, {x});") } else { format!("Vec::push({dst}, {x});") }
                }));
            }
            "extend" | "from_iter" => return None,
            _ => {}
        }
        // adapters
        let fused = ["cloned", "copied", "map", "filter", "filter_map", "fold", "for_each", "any", "all", "find", "find_map", "flatten", "flat_map", "partition"].contains(&name);
        let (base, st) = if fused { self.stages(t, &args[0]) } else { (args[0].clone(), vec![]) };
        let bty = if st.is_empty() { peeled } else { base.ty };
        let s0 = self.a(t, &base);
        let prefix = self.model_prefix(bty);
        let item = match self.item_of(peeled) {
            Some(i) => i,
            None => return Some(self.uns("iterator item")),
        };
        let by_mut = st.is_empty() && matches!(name, "any" | "all" | "find" | "find_map" | "position" | "try_fold");
        let s0 = if by_mut {
            // consuming the receiver; a later use of it is a use after move, which Verus rejects
            if !s0.starts_with("(&mut ") { return Some(self.uns(format!("iterator adapter {name}"))) }
            deref(&s0)
        } else { s0 };
        let (s, _) = self.to_it(s0, bty);
        let unsup = |me: &mut Self| Some(me.uns(format!("iterator adapter {name}")));
        match name {
            "rev" => Some(format!("{prefix}_rev({s})")),
            "by_ref" | "peekable" => unsup(self),
            "fuse" => Some(s), // a sequence that ended stays ended
            "flatten" if self.is_option(item) => {
                let out = format!("out_{}", self.nloops + 1);
                let out = self.fresh_name(&out);
                let o2 = out.clone();
                Some(self.iter_loop(t, "filter_map", s, format!("let mut {out} = Vec::new();"), format!("It_from_vec({out})"), prefix, st, vec![(out.clone(), "Vec".into())], move |_, id, x| {
                    format!("if let Some(y_{id}) = {x} {{ {o2}.push(y_{id}); }}")
                }))
            }
            "position" => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let k = self.nloops + 1;
                let acc = self.fresh_name(&format!("acc_{k}"));
                let n = self.fresh_name(&format!("n_{k}"));
                let tot = self.fresh_name(&format!("tot_{k}"));
                let (a2, n2) = (acc.clone(), n.clone());
                let src = self.tmp();
                let lp = self.iter_loop(t, name, src.clone(), format!("let mut {acc}: Option<usize> = None; let mut {n}: usize = 0;"), acc.clone(), prefix, st, vec![(acc.clone(), "Option<usize>".into())], move |me, _, x| {
                    let b = me.apply(t, &f, vec![(x, item)], fo);
                    format!("if {b} {{ {a2} = Some({n2}); break; }} {n2} = {n2} + 1;")
                });
                Some(format!("{{ let {src} = {s}; let {tot} = {prefix}_len(&{src}); {lp} }}"))
            }
            "try_fold" if self.is_option(rt) || self.is_result(rt) => {
                let init = self.a(t, &args[1]);
                let f = args[2].clone();
                let fo = self.fn_out(&f);
                let k = self.nloops + 1;
                let acc = self.fresh_name(&format!("acc_{k}"));
                let a2 = acc.clone();
                let (good, bad) = if self.is_option(rt) { ("Some", "None") } else { ("Ok", "Err") };
                let (y, y2) = (self.tmp(), self.tmp());
                let rts = self.ty(rt);
                Some(self.iter_loop(t, name, s, format!("let mut {acc}: {rts} = {good}({init});"), acc.clone(), prefix, st, vec![(acc.clone(), rts)], move |me, id, x| {
                    me.next_cret = Some(format!("{{ {a2} = $$; if matches!({a2}, {bad}{}) {{ break 'l{id}; }} continue 'l{id}; }}", if bad == "Err" { "(_)" } else { "" }));
                    let ity = match rt.kind() { ty::Adt(_, aa) => aa.type_at(0), _ => rt };
                    let b = me.apply(t, &f, vec![(y.clone(), ity), (x, item)], fo);
                    let other = if bad == "Err" { format!("Err({y2}) => {{ {a2} = Err({y2}); break; }}") } else { "None => { break; }".to_string() };
                    let arm = if bad == "Err" { "Err(_)" } else { "None" };
                    let _ = &y2;
                    format!("match {a2} {{ {good}({y}) => {{ {a2} = {b}; }}, {other} }} if matches!({a2}, {arm}) {{ break; }}")
                }))
            }
            "partition" => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let ty::Tuple(ts) = rt.kind() else { return unsup(self) };
                if ts.len() != 2 || !self.adt_is(ts[0], "std::vec::Vec") { return unsup(self); }
                let k = self.nloops + 1;
                let yes = self.fresh_name(&format!("yes_{k}"));
                let no = self.fresh_name(&format!("no_{k}"));
                let (y2, n2) = (yes.clone(), no.clone());
                Some(self.iter_loop(t, name, s, format!("let mut {yes} = Vec::new(); let mut {no} = Vec::new();"), format!("({yes}, {no})"), prefix, st, vec![(yes.clone(), "Vec".into()), (no.clone(), "Vec".into())], move |me, id, x| {
                    let b = me.apply(t, &f, vec![(format!("(&{x})"), Ty::new_imm_ref(me.cr.tcx, me.cr.tcx.lifetimes.re_erased, item))], fo);
                    format!("let y_{id} = {b}; if y_{id} {{ {y2}.push({x}); }} else {{ {n2}.push({x}); }}")
                }))
            }
            "eq" => {
                // against an array of known length
                let ty::Array(x, n) = args[1].ty.kind() else { return unsup(self) };
                let k = n.try_to_target_usize(self.cr.tcx).unwrap_or(99);
                if k > 4 { return unsup(self); }
                let o = self.a(t, &args[1]);
                let (lv, rv) = (self.tmp(), self.tmp());
                let mut conds = vec![format!("{lv}.len() == {k}")];
                for i in 0..k {
                    let c = self.compare("eq", format!("(&{lv}[{i}])"), item, format!("(&{rv}.f{i})"), *x);
                    conds.push(c);
                }
                Some(format!("{{ let {lv} = {prefix}_to_vec({s}); let {rv} = {o}; {} }}", conds.join(" && ")))
            }
            "cloned" | "copied" if matches!(item.kind(), ty::Ref(..)) => {
                let ty::Ref(_, inner, _) = item.kind() else { return unsup(self) };
                let inner = *inner;
                let out = format!("out_{}", self.nloops + 1);
                let out = self.fresh_name(&out);
                let o2 = out.clone();
                Some(self.iter_loop(t, "cloned", s, format!("let mut {out} = Vec::new();"), format!("It_from_vec({out})"), prefix, st, vec![(out.clone(), "Vec".into())], move |me, _, x| {
                    let c = me.clone_of(x, inner);
                    format!("{o2}.push({c});")
                }))
            }
            "map" => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let out = format!("out_{}", self.nloops + 1);
                let out = self.fresh_name(&out);
                let o2 = out.clone();
                let fin = if matches!(fo.kind(), ty::Ref(..)) { format!("ItR_from_refs({out})") } else { format!("It_from_vec({out})") };
                Some(self.iter_loop(t, "map", s, format!("let mut {out} = Vec::new();"), fin, prefix, st, vec![(out.clone(), "Vec".into())], move |me, id, x| {
                    me.next_cret = Some(format!("{{ {o2}.push($$); continue 'l{id}; }}"));
                    let b = me.apply(t, &f, vec![(x, item)], fo);
                    format!("let y_{id} = {b}; {o2}.push(y_{id});")
                }))
            }
            "filter" => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let out = format!("out_{}", self.nloops + 1);
                let out = self.fresh_name(&out);
                let o2 = out.clone();
                let fin = if !matches!(item.kind(), ty::Ref(..)) { format!("It_from_vec({out})") } else { format!("ItR_from_refs({out})") };
                Some(self.iter_loop(t, "filter", s, format!("let mut {out} = Vec::new();"), fin, prefix, st, vec![(out.clone(), "Vec".into())], move |me, id, x| {
                    let b = me.apply(t, &f, vec![(format!("(&{x})"), Ty::new_imm_ref(me.cr.tcx, me.cr.tcx.lifetimes.re_erased, item))], fo);
                    format!("let y_{id} = {b}; if y_{id} {{ {o2}.push({x}); }}")
                }))
            }
            "filter_map" | "flat_map" if name == "filter_map" || self.is_option(self.fn_out(&args[1])) => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let out = format!("out_{}", self.nloops + 1);
                let out = self.fresh_name(&out);
                let o2 = out.clone();
                Some(self.iter_loop(t, "filter_map", s, format!("let mut {out} = Vec::new();"), format!("It_from_vec({out})"), prefix, st, vec![(out.clone(), "Vec".into())], move |me, id, x| {
                    let b = me.apply(t, &f, vec![(x, item)], fo);
                    format!("if let Some(y_{id}) = {b} {{ {o2}.push(y_{id}); }}")
                }))
            }
            "fold" => {
                let init = self.a(t, &args[1]);
                let f = args[2].clone();
                let fo = self.fn_out(&f);
                let acc = format!("acc_{}", self.nloops + 1);
                let acc = self.fresh_name(&acc);
                let a2 = acc.clone();
                let ity = args[1].ty;
                let its = self.ty(ity);
                Some(self.iter_loop(t, "fold", s, format!("let mut {acc} = {init};"), acc.clone(), prefix, st, vec![(acc.clone(), its)], move |me, id, x| {
                    me.next_cret = Some(format!("{{ {a2} = $$; continue 'l{id}; }}"));
                    let b = me.apply(t, &f, vec![(a2.clone(), ity), (x, item)], fo);
                    format!("{a2} = {b};")
                }))
            }
            "reduce" if st.is_empty() => {
                // the first item, then a fold over the rest
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let rest = self.tmp();
                let first = self.tmp();
                let acc = format!("acc_{}", self.nloops + 1);
                let acc = self.fresh_name(&acc);
                let a2 = acc.clone();
                let its = self.ty(item);
                let lp = self.iter_loop(t, "fold", rest.clone(), format!("let mut {acc} = {first};"), format!("Some({acc})"), prefix, st, vec![(acc.clone(), its)], move |me, id, x| {
                    me.next_cret = Some(format!("{{ {a2} = $$; continue 'l{id}; }}"));
                    let b = me.apply(t, &f, vec![(a2.clone(), item), (x, item)], fo);
                    format!("{a2} = {b};")
                });
                Some(format!("{{ let mut {rest} = {s}; match {prefix}_next(&mut {rest}) {{ None => None, Some({first}) => {lp} }} }}"))
            }
            "for_each" => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                Some(self.iter_loop(t, "for_each", s, String::new(), String::new(), prefix, st, vec![], move |me, _, x| {
                    let b = me.apply(t, &f, vec![(x, item)], fo);
                    format!("{b};")
                }))
            }
            "any" | "all" => {
                // on a by-reference receiver: only for temporaries
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let acc = format!("acc_{}", self.nloops + 1);
                let acc = self.fresh_name(&acc);
                let a2 = acc.clone();
                let any = name == "any";
                Some(self.iter_loop(t, name, s, format!("let mut {acc} = {};", !any), acc.clone(), prefix, st, vec![(acc.clone(), "bool".into())], move |me, _, x| {
                    let b = me.apply(t, &f, vec![(x, item)], fo);
                    if any { format!("if {b} {{ {a2} = true; break; }}") } else { format!("if !({b}) {{ {a2} = false; break; }}") }
                }))
            }
            "find" | "find_map" => {
                let f = args[1].clone();
                let fo = self.fn_out(&f);
                let acc = format!("acc_{}", self.nloops + 1);
                let acc = self.fresh_name(&acc);
                let a2 = acc.clone();
                let find = name == "find";
                let k = self.unsupported.len();
                let rts = self.ty(rt);
                self.unsupported.truncate(k);
                Some(self.iter_loop(t, name, s, format!("let mut {acc} = None;"), acc.clone(), prefix, st, vec![(acc.clone(), rts)], move |me, id, x| {
                    if find {
                        let b = me.apply(t, &f, vec![(format!("(&{x})"), Ty::new_imm_ref(me.cr.tcx, me.cr.tcx.lifetimes.re_erased, item))], fo);
                        format!("if {b} {{ {a2} = Some({x}); break; }}")
                    } else {
                        let b = me.apply(t, &f, vec![(x, item)], fo);
                        format!("let y_{id} = {b}; if y_{id}.is_some() {{ {a2} = y_{id}; break; }}")
                    }
                }))
            }
            "count" => Some(format!("{prefix}_count({s})")),
            "last" => Some(format!("{prefix}_last({s})")),
            "chain" => {
                let p2 = self.model_prefix(args[1].ty);
                if p2 != prefix { return unsup(self); }
                let o = self.a(t, &args[1]);
                let (o, _) = self.to_it(o, args[1].ty);
                Some(format!("{prefix}_chain({s}, {o})"))
            }
            "collect" => {
                if self.adt_is(rt, "std::vec::Vec") {
                    return Some(format!("{prefix}_to_vec({s})"));
                }
                if self.is_bset(rt) {
                    return Some(format!("BSet_from_it({s})"));
                }
                if self.cr.is_local_adt(rt) {
                    let tcx = self.cr.tcx;
                    let Some(fi) = tcx.get_diagnostic_item(rustc_span::sym::FromIterator) else { return unsup(self) };
                    let targs = [rt.into(), item.into()];
                    if let Some((im, _)) = self.cr.find_impl(fi, &targs, self.env) {
                        let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        let f = self.cr.mangle_trait_item(trr, "from_iter");
                        self.calls.insert(f.clone());
                        return Some(format!("{f}({s})"));
                    }
                }
                unsup(self)
            }
            _ => unsup(self),
        }
    }

    fn std_call(&mut self, t: Th<'_, 'tcx>, path: &str, name: &str, args: Vec<Arg<'tcx>>, rt: Ty<'tcx>) -> String {
        let tcx = self.cr.tcx;
        if name == "discriminant_value" && args.len() == 1 {
            if let ty::Adt(a, _) = args[0].ty.peel_refs().kind() {
                if a.did().is_local() && a.is_enum() {
                    let s = self.a(t, &args[0]);
                    let n = self.cr.tname(args[0].ty.peel_refs());
                    return format!("{n}_tag({s})");
                }
            }
        }
        if path.ends_with("intrinsics::unreachable") {
            return self.unreached();
        }
        if path.starts_with("std::option::Option::<") {
            let recv_ty = args[0].ty;
            let s = self.a(t, &args[0]);
            let opt_ty = recv_ty.peel_refs();
            let inner = match opt_ty.kind() {
                ty::Adt(_, a) => a.type_at(0),
                _ => tcx.types.unit,
            };
            let v = self.tmp();
            let ro = |rt: Ty<'tcx>| match rt.kind() { ty::Adt(_, a) if a.types().next().is_some() => a.type_at(0), _ => rt };
            return match name {
                "is_some" | "is_none" | "as_ref" => format!("{s}.{name}()"),
                "as_mut" => format!("Option::as_mut({s})"),
                "take" => format!("Option::take({s})"),
                "replace" => { let b = self.a(t, &args[1]); format!("opt_replace({s}, {b})") }
                "insert" => self.uns("Option::insert"),
                "unwrap" | "expect" => {
                    let ts = self.ty(inner);
                    format!("(match {s} {{ Some({v}) => {v}, None => unreached::<{ts}>() }})")
                }
                "unwrap_or" => {
                    let d = self.a(t, &args[1]);
                    let dv = self.tmp();
                    format!("{{ let {v} = {s}; let {dv} = {d}; match {v} {{ Some({v}) => {v}, None => {dv} }} }}")
                }
                "unwrap_or_else" => {
                    let d = self.apply(t, &args[1], vec![], inner);
                    format!("(match {s} {{ Some({v}) => {v}, None => {d} }})")
                }
                "unwrap_or_default" => {
                    let d = self.default_of(inner);
                    format!("(match {s} {{ Some({v}) => {v}, None => {d} }})")
                }
                "zip" => {
                    let o = self.a(t, &args[1]);
                    let w = self.tmp();
                    format!("(match ({s}, {o}) {{ (Some({v}), Some({w})) => Some(({v}, {w})), _ => None }})")
                }
                "xor" => {
                    let o = self.a(t, &args[1]);
                    let w = self.tmp();
                    format!("(match ({s}, {o}) {{ (Some({v}), None) => Some({v}), (None, Some({w})) => Some({w}), _ => None }})")
                }
                "map" => {
                    let b = self.apply(t, &args[1], vec![(v.clone(), inner)], ro(rt));
                    format!("(match {s} {{ Some({v}) => Some({b}), None => None }})")
                }
                "and_then" => {
                    let b = self.apply(t, &args[1], vec![(v.clone(), inner)], rt);
                    format!("(match {s} {{ Some({v}) => {b}, None => None }})")
                }
                "map_or" => {
                    let d = self.a(t, &args[1]);
                    let b = self.apply(t, &args[2], vec![(v.clone(), inner)], rt);
                    format!("(match {s} {{ Some({v}) => {b}, None => {d} }})")
                }
                "map_or_else" => {
                    let d = self.apply(t, &args[1], vec![], rt);
                    let b = self.apply(t, &args[2], vec![(v.clone(), inner)], rt);
                    format!("(match {s} {{ Some({v}) => {b}, None => {d} }})")
                }
                "is_some_and" => {
                    let b = self.apply(t, &args[1], vec![(v.clone(), inner)], rt);
                    format!("(match {s} {{ Some({v}) => {b}, None => false }})")
                }
                "is_none_or" => {
                    let b = self.apply(t, &args[1], vec![(v.clone(), inner)], rt);
                    format!("(match {s} {{ Some({v}) => {b}, None => true }})")
                }
                "or_else" => {
                    let b = self.apply(t, &args[1], vec![], rt);
                    format!("(match {s} {{ Some({v}) => Some({v}), None => {b} }})")
                }
                "or" => {
                    let d = self.a(t, &args[1]);
                    let dv = self.tmp();
                    format!("{{ let {v} = {s}; let {dv} = {d}; match {v} {{ Some({v}) => Some({v}), None => {dv} }} }}")
                }
                "ok_or" => {
                    let d = self.a(t, &args[1]);
                    let dv = self.tmp();
                    format!("{{ let {v} = {s}; let {dv} = {d}; match {v} {{ Some({v}) => Ok({v}), None => Err({dv}) }} }}")
                }
                "ok_or_else" => {
                    let et = match rt.kind() { ty::Adt(_, a) => a.type_at(1), _ => rt };
                    let d = self.apply(t, &args[1], vec![], et);
                    format!("(match {s} {{ Some({v}) => Ok({v}), None => Err({d}) }})")
                }
                "filter" => {
                    let b = self.apply(t, &args[1], vec![(format!("(&{v})"), Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, inner))], rt);
                    format!("(match {s} {{ Some({v}) => if {b} {{ Some({v}) }} else {{ None }}, None => None }})")
                }
                "cloned" | "copied" => {
                    let ty::Ref(_, x, _) = inner.kind() else { return self.uns("cloned") };
                    let c = self.clone_of(v.clone(), *x);
                    format!("(match {s} {{ Some({v}) => Some({c}), None => None }})")
                }
                _ => self.uns(format!("call {path}")),
            };
        }
        if path.starts_with("std::result::Result::<") {
            let s = self.a(t, &args[0]);
            let ty::Adt(_, ra) = args[0].ty.peel_refs().kind() else { return self.uns(format!("call {path}")) };
            let (ok, er) = (ra.type_at(0), ra.type_at(1));
            let (v, w) = (self.tmp(), self.tmp());
            let arg_of = |rt: Ty<'tcx>, i: usize| match rt.kind() { ty::Adt(_, a) if a.types().count() > i => a.type_at(i), _ => rt };
            return match name {
                "is_ok" | "is_err" => format!("{s}.{name}()"),
                "ok" => format!("(match {s} {{ Ok({v}) => Some({v}), Err(_) => None }})"),
                "err" => format!("(match {s} {{ Ok(_) => None, Err({v}) => Some({v}) }})"),
                "map" => {
                    let b = self.apply(t, &args[1], vec![(v.clone(), ok)], arg_of(rt, 0));
                    format!("(match {s} {{ Ok({v}) => Ok({b}), Err({w}) => Err({w}) }})")
                }
                "map_err" => {
                    let b = self.apply(t, &args[1], vec![(w.clone(), er)], arg_of(rt, 1));
                    format!("(match {s} {{ Ok({v}) => Ok({v}), Err({w}) => Err({b}) }})")
                }
                "and_then" => {
                    let b = self.apply(t, &args[1], vec![(v.clone(), ok)], rt);
                    format!("(match {s} {{ Ok({v}) => {b}, Err({w}) => Err({w}) }})")
                }
                "or_else" => {
                    let b = self.apply(t, &args[1], vec![(w.clone(), er)], rt);
                    format!("(match {s} {{ Ok({v}) => Ok({v}), Err({w}) => {b} }})")
                }
                "map_or" => {
                    let d = self.a(t, &args[1]);
                    let b = self.apply(t, &args[2], vec![(v.clone(), ok)], rt);
                    format!("(match {s} {{ Ok({v}) => {b}, Err(_) => {d} }})")
                }
                "unwrap" | "expect" => {
                    let ts = self.ty(ok);
                    format!("(match {s} {{ Ok({v}) => {v}, Err(_) => unreached::<{ts}>() }})")
                }
                _ => self.uns(format!("call {path}")),
            };
        }
        if path.contains("<impl str>::") {
            let s = self.a(t, &args[0]);
            if name == "parse" {
                let pt = match rt.kind() { ty::Adt(_, a) => a.type_at(0), _ => rt };
                if matches!(pt.kind(), ty::Param(_)) {
                    let ts = self.ty(pt);
                    return format!("vparse::<{ts}>({s})");
                }
                return self.uns(format!("parse of {pt}"));
            }
            if args.len() == 1 {
                return match name {
                    "len" | "is_empty" => format!("str_{name}({s})"),
                    _ => self.uns(format!("call {path}")),
                };
            }
            if args.len() == 2 {
                let p = self.a(t, &args[1]);
                let pt = args[1].ty;
                let k = if pt.is_char() { "c" } else if pt.peel_refs().is_str() && pt.is_ref() { "s" } else { return self.uns(format!("str pattern {pt}")) };
                return match name {
                    "starts_with" | "ends_with" | "contains" | "strip_prefix" | "strip_suffix" | "split_once" | "rsplit_once" => format!("str{k}_{name}({s}, {p})"),
                    _ => self.uns(format!("call {path}")),
                };
            }
            return self.uns(format!("call {path}"));
        }
        if path.contains("fmt::Formatter") {
            let f = self.a(t, &args[0]);
            if name == "write_fmt" {
                if let Some(id) = args[1].id {
                    return match self.fmt_pieces(t, id) {
                        Some(ps) => format!("Fmt_write({f}, {})", ps.into_iter().rev().fold("FArgs::Nil".to_string(), |a, p| format!("FArgs::Cons({p}, Box::new({a}))"))),
                        None => self.uns("format arguments"),
                    };
                }
            }
            if name == "write_str" || name == "write_char" {
                let s = self.a(t, &args[1]);
                return format!("Fmt_{name}({f}, {s})");
            }
            return self.uns(format!("call {path}"));
        }
        if path.contains("bool>::then") || path.starts_with("bool::then") || path.starts_with("std::bool::") {
            let s = self.a(t, &args[0]);
            if name == "then" {
                let b = self.apply(t, &args[1], vec![], rt);
                return format!("(if {s} {{ Some({b}) }} else {{ None }})");
            }
            if name == "then_some" {
                let v = self.a(t, &args[1]);
                let n = self.tmp();
                let c = self.tmp();
                return format!("{{ let {c} = {s}; let {n} = {v}; if {c} {{ Some({n}) }} else {{ None }} }}");
            }
        }
        match path {
            "std::mem::replace" => {
                let a = self.a(t, &args[0]);
                let b = self.a(t, &args[1]);
                return format!("mem_replace({a}, {b})");
            }
            "std::mem::swap" => {
                let a = self.a(t, &args[0]);
                let b = self.a(t, &args[1]);
                return format!("std::mem::swap({a}, {b})");
            }
            "std::mem::take" => {
                let a = self.a(t, &args[0]);
                if self.is_option(rt) {
                    return format!("Option::take({a})");
                }
                let d = self.default_of(rt);
                return format!("mem_replace({a}, {d})");
            }
            "std::mem::drop" => {
                let a = self.a(t, &args[0]);
                return format!("{{ let _d = {a}; }}");
            }
            _ => {}
        }
        if path.contains("cmp::Ordering::") && args.len() == 1 && path.starts_with("std::cmp::Ordering::") {
            let s = self.a(t, &args[0]);
            return match name {
                "is_lt" => format!("matches!({s}, Ordering::Less)"),
                "is_gt" => format!("matches!({s}, Ordering::Greater)"),
                "is_eq" => format!("matches!({s}, Ordering::Equal)"),
                "is_ne" => format!("(!matches!({s}, Ordering::Equal))"),
                "is_le" => format!("(!matches!({s}, Ordering::Greater))"),
                "is_ge" => format!("(!matches!({s}, Ordering::Less))"),
                "reverse" => format!("(match {s} {{ Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }})"),
                _ => self.uns(format!("call {path}")),
            };
        }
        if path.contains("BTreeSet") {
            let v: Vec<String> = args.iter().map(|a| self.a(t, a)).collect();
            return match name {
                "new" | "iter" | "insert" | "take" | "split_off" | "append" | "len" | "is_empty" | "first" | "last" | "pop_first" | "pop_last" | "remove" | "contains" | "get" | "clear" | "replace" => {
                    format!("BSet_{name}({})", v.join(", "))
                }
                _ => self.uns(format!("call {path}")),
            };
        }
        if path.starts_with("std::vec::Vec::<") || path.starts_with("std::vec::Vec::") || path.starts_with("core::slice::") || path.starts_with("std::slice::<") || path.contains("slice::<impl [T]>") {
            if path.contains("into_vec") {
                // vec![..]
                if let Some(id) = args[0].id {
                    if let Some(els) = self.find_array(t, id) {
                        let v: Vec<String> = els.iter().map(|x| self.e(t, *x)).collect();
                        return format!("vec![{}]", v.join(", "));
                    }
                }
                return self.uns("vec!");
            }
            if name == "retain" {
                let dst = self.a(t, &args[0]);
                    // every item in turn: kept or dropped
                    let Some(item) = args[0].ty.peel_refs().walk().nth(1).and_then(|x| x.as_type()) else { return self.uns("retain") };
                    let f = args[1].clone();
                    let fo = self.fn_out(&f);
                    let out = format!("out_{}", self.nloops + 1);
                    let out = self.fresh_name(&out);
                    let o2 = out.clone();
                    return self.iter_loop(t, "retain", format!("Vec_take_all({})", dst), format!("let mut {out} = Vec::new();"), format!("{} = {out};", deref(&dst)), "It", vec![], vec![(out.clone(), "Vec".into())], move |me, id, x| {
                        let b = me.apply(t, &f, vec![(format!("(&{x})"), Ty::new_imm_ref(me.cr.tcx, me.cr.tcx.lifetimes.re_erased, item))], fo);
                        format!("let y_{id} = {b}; if y_{id} {{ {o2}.push({x}); }}")
                    });
            }
            let v: Vec<String> = args.iter().map(|a| self.a(t, a)).collect();
            return match name {
                "new" | "with_capacity" => "Vec::new()".into(),
                "push" | "len" | "is_empty" | "remove" | "insert" | "pop" | "clear" | "truncate" | "swap_remove" | "append" => {
                    format!("Vec::{name}({})", v.join(", "))
                }
                "iter" => format!("ItR_from_vec({})", v[0]),
                "first" | "last" => format!("Vec_{name}({})", v[0]),
                "get" if args[1].ty.is_integral() => format!("Vec_get({}, {})", v[0], v[1]),
                _ => self.uns(format!("call {path}")),
            };
        }
        if path.contains("box_assume_init_into_vec_unsafe") || path.contains("into_vec") {
            if let Some(id) = args[0].id {
                if let Some(els) = self.find_array(t, id) {
                    let v: Vec<String> = els.iter().map(|x| self.e(t, *x)).collect();
                    return format!("vec![{}]", v.join(", "));
                }
            }
        }
        if path == "std::iter::once" {
            let s = self.a(t, &args[0]);
            return format!("It_from_option(Some({s}))");
        }
        if path == "std::iter::empty" {
            if let Some(item) = self.item_of(rt) {
                let ts = self.ty(item);
                return format!("It_from_option::<{ts}>(None)");
            }
        }
        if path.contains("num::<impl ") && args.len() == 2 && args[0].ty.is_integral() && args[1].ty == args[0].ty {
            // arithmetic of the machine integers, spelled out so that it is checked and not assumed
            let ts = self.ty(args[0].ty);
            let l = self.a(t, &args[0]);
            let r = self.a(t, &args[1]);
            let (a, b) = (self.tmp(), self.tmp());
            let bind = format!("let {a}: {ts} = {l}; let {b}: {ts} = {r};");
            let signed = args[0].ty.is_signed();
            let fits_sub = if signed { format!("if {b} >= 0 {{ {a} >= {ts}::MIN + {b} }} else {{ {a} <= {ts}::MAX + {b} }}") } else { format!("{a} >= {b}") };
            let fits_add = if signed { format!("if {b} >= 0 {{ {a} <= {ts}::MAX - {b} }} else {{ {a} >= {ts}::MIN - {b} }}") } else { format!("{a} <= {ts}::MAX - {b}") };
            let low = if signed { format!("if {b} >= 0 {{ {ts}::MIN }} else {{ {ts}::MAX }}") } else { "0".to_string() };
            let high = if signed { format!("if {b} >= 0 {{ {ts}::MAX }} else {{ {ts}::MIN }}") } else { format!("{ts}::MAX") };
            return match name {
                "checked_sub" => format!("{{ {bind} if {{ {fits_sub} }} {{ Some(({a} - {b}) as {ts}) }} else {{ None }} }}"),
                "checked_add" => format!("{{ {bind} if {{ {fits_add} }} {{ Some(({a} + {b}) as {ts}) }} else {{ None }} }}"),
                "saturating_sub" => format!("{{ {bind} if {{ {fits_sub} }} {{ ({a} - {b}) as {ts} }} else {{ {low} }} }}"),
                "saturating_add" => format!("{{ {bind} if {{ {fits_add} }} {{ ({a} + {b}) as {ts} }} else {{ {high} }} }}"),
                "wrapping_sub" => format!("{{ {bind} {a}.wrapping_sub({b}) }}"),
                "wrapping_add" => format!("{{ {bind} {a}.wrapping_add({b}) }}"),
                _ => self.uns(format!("call {path}")),
            };
        }
        if path == "std::hint::must_use" || path == "std::convert::identity" {
            return self.a(t, &args[0]);
        }
        self.uns(format!("call {path}"))
    }

    /// The pieces of a `format_args!`: literals and plain `{}` placeholders.
    fn fmt_pieces(&mut self, t: Th<'_, 'tcx>, id: ExprId) -> Option<Vec<String>> {
        let lit = |s: &str| s.chars().map(|c| format!("FArg::Lit('\\u{{{:x}}}')", c as u32)).collect::<Vec<_>>();
        match &self.peel(t, id).kind {
            ExprKind::Call { ty, args, .. } => {
                let ty::FnDef(d, _) = *self.subst_t(*ty).kind() else { return None };
                let name = self.cr.tcx.item_name(d).to_string();
                match (name.as_str(), args.len()) {
                    ("from_str", 1) => match &self.peel(t, args[0]).kind {
                        ExprKind::Literal { lit: l, .. } => match l.node {
                            rustc_ast::LitKind::Str(s, _) => Some(lit(s.as_str())),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                }
            }
            ExprKind::Block { block } => {
                // { let args = (&a, ..); let args = [display(args.0), ..]; new(template, &args) }
                let bl = &t[*block];
                if bl.stmts.len() != 2 { return None; }
                let init = |i: usize| match &t[bl.stmts[i]].kind { StmtKind::Let { initializer: Some(x), .. } => Some(*x), _ => None };
                let ExprKind::Tuple { fields } = &self.peel(t, init(0)?).kind else { return None };
                let ExprKind::Array { fields: els } = &self.peel(t, init(1)?).kind else { return None };
                let mut shown = vec![];
                for e in els.iter() {
                    let ExprKind::Call { ty, args, .. } = &self.peel(t, *e).kind else { return None };
                    let ty::FnDef(d, _) = *self.subst_t(*ty).kind() else { return None };
                    if self.cr.tcx.item_name(d).as_str() != "new_display" || args.len() != 1 { return None; }
                    let mut a = self.peel(t, args[0]);
                    while let ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } = &a.kind { a = self.peel(t, *arg); }
                    let ExprKind::Field { name, .. } = &a.kind else { return None };
                    let f = *fields.get(name.as_usize())?;
                    let s = self.e(t, f);
                    let (s, ty) = self.peel_arg(s, self.ety(t, f).builtin_deref(true)?);
                    shown.push(match ty.kind() {
                        ty::Param(_) => format!("FArg::Show(Ghost(txt(*{s})))"),
                        ty::Str => format!("FArg::Show(Ghost({s}@))"),
                        ty::Char => format!("FArg::Lit(*{s})"),
                        _ => return None,
                    });
                }
                let mut e = bl.expr?;
                loop {
                    match &self.peel(t, e).kind {
                        ExprKind::Block { block } if t[*block].stmts.is_empty() => e = t[*block].expr?,
                        ExprKind::Call { ty, args, .. } => {
                            let ty::FnDef(d, _) = *self.subst_t(*ty).kind() else { return None };
                            if self.cr.tcx.item_name(d).as_str() != "new" || args.len() != 2 { return None; }
                            let mut l = self.peel(t, args[0]);
                            while let ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } = &l.kind { l = self.peel(t, *arg); }
                            let ExprKind::Literal { lit: l, .. } = &l.kind else { return None };
                            let rustc_ast::LitKind::ByteStr(b, _) = &l.node else { return None };
                            let b = b.as_byte_str();
                            let (mut i, mut next, mut out) = (0usize, 0usize, vec![]);
                            loop {
                                match *b.get(i)? {
                                    0 => return if i + 1 == b.len() { Some(out) } else { None },
                                    n @ 1..=0x7f => {
                                        let n = n as usize;
                                        out.extend(lit(std::str::from_utf8(b.get(i + 1..i + 1 + n)?).ok()?));
                                        i += 1 + n;
                                    }
                                    0xc0 => { out.push(shown.get(next)?.clone()); next += 1; i += 1; }
                                    0xc8 => {
                                        let k = u16::from_le_bytes([*b.get(i + 1)?, *b.get(i + 2)?]) as usize;
                                        out.push(shown.get(k)?.clone());
                                        next = k + 1;
                                        i += 3;
                                    }
                                    _ => return None,
                                }
                            }
                        }
                        _ => return None,
                    }
                }
            }
            _ => None,
        }
    }

    fn find_array(&self, t: Th<'_, 'tcx>, id: ExprId) -> Option<Vec<ExprId>> {
        let e = self.peel(t, id);
        match &e.kind {
            ExprKind::Array { fields } => Some(fields.to_vec()),
            ExprKind::Call { args, .. } => args.iter().rev().find_map(|a| self.find_array(t, *a)),
            ExprKind::PointerCoercion { source, .. } => self.find_array(t, *source),
            ExprKind::Block { block } => t[*block].expr.and_then(|x| self.find_array(t, x)),
            ExprKind::Borrow { arg, .. } | ExprKind::Deref { arg } => self.find_array(t, *arg),
            _ => None,
        }
    }

    #[allow(dead_code)]
    fn unused(&self, t: Th<'_, 'tcx>, id: ExprId) -> ExprId {
        self.peel_id(t, id)
    }
}

/// the characters of a literal, as a ghost sequence
fn chars(s: &str) -> String {
    if s.is_empty() {
        return "Seq::<char>::empty()".into();
    }
    s.chars().fold("Seq::<char>::empty()".to_string(), |a, c| format!("{a}.push('\\u{{{:x}}}')", c as u32))
}

fn deref(s: &str) -> String {
    if let Some(r) = s.strip_prefix("(&mut ") {
        if balanced(r) {
            return r[..r.len() - 1].to_string();
        }
    }
    if let Some(r) = s.strip_prefix("(&") {
        if balanced(r) && !r.starts_with('&') {
            return r[..r.len() - 1].to_string();
        }
    }
    format!("(*{s})")
}

/// `r` is the rest of a parenthesised expression: its last char closes the group.
fn balanced(r: &str) -> bool {
    let mut d = 1i32;
    let n = r.len();
    for (i, c) in r.char_indices() {
        match c {
            '(' | '{' | '[' => d += 1,
            ')' | '}' | ']' => d -= 1,
            _ => {}
        }
        if d == 0 {
            return i + 1 == n;
        }
    }
    false
}

fn brace(s: &str) -> String {
    if s.starts_with("{\n") && s.ends_with('}') && brace_ok(s) {
        s.to_string()
    } else {
        format!("{{ {s} }}")
    }
}

fn brace_ok(s: &str) -> bool {
    balanced(&s[1..])
}

fn split_or<'p, 'tcx>(p: &'p Pat<'tcx>) -> Vec<&'p Pat<'tcx>> {
    match &p.kind {
        PatKind::Or { pats } => pats.iter().flat_map(|q| split_or(q)).collect(),
        PatKind::Deref { subpattern, .. } if matches!(subpattern.kind, PatKind::Or { .. }) => split_or(subpattern),
        _ => vec![p],
    }
}

fn under_deref(p: &Pat<'_>) -> bool {
    matches!(&p.kind, PatKind::Deref { .. })
}

/// Does evaluating `id` possibly return from the enclosing body (closures aside)?
fn has_return(t: &Thir<'_>, id: ExprId, skip: &[(*const (), String)]) -> bool {
    use rustc_middle::thir::visit::{walk_expr, Visitor};
    struct F<'a, 'b, 'tcx> { t: &'a Thir<'tcx>, found: bool, skip: &'b [(*const (), String)] }
    impl<'a, 'b, 'tcx> Visitor<'a, 'tcx> for F<'a, 'b, 'tcx> {
        fn thir(&self) -> &'a Thir<'tcx> { self.t }
        fn visit_expr(&mut self, e: &'a Expr<'tcx>) {
            if self.skip.iter().any(|x| x.0 == e as *const Expr<'tcx> as *const ()) { return; }
            if let ExprKind::Return { .. } = e.kind { self.found = true; }
            walk_expr(self, e);
        }
    }
    let mut f = F { t, found: false, skip };
    f.visit_expr(&t[id]);
    f.found
}

/// The first operand of `id` that may return, when every operand evaluated before it is a plain value.
fn operand_with_return(t: &Thir<'_>, id: ExprId, bound: &[(*const (), String)]) -> Option<ExprId> {
    let ops: Vec<ExprId> = match &t[id].kind {
        ExprKind::Call { args, .. } => args.to_vec(),
        ExprKind::Adt(a) => { if !matches!(a.base, rustc_middle::thir::AdtExprBase::None) { return None; } a.fields.iter().map(|f| f.expr).collect() }
        ExprKind::Tuple { fields } | ExprKind::Array { fields } => fields.to_vec(),
        ExprKind::Borrow { arg, .. } => vec![*arg],
        ExprKind::Deref { arg } => vec![*arg],
        ExprKind::Field { lhs, .. } => vec![*lhs],
        ExprKind::Binary { lhs, rhs, .. } => vec![*lhs, *rhs],
        ExprKind::Unary { arg, .. } => vec![*arg],
        ExprKind::Cast { source } | ExprKind::PointerCoercion { source, .. } => vec![*source],
        ExprKind::ValueTypeAscription { source, .. } | ExprKind::PlaceTypeAscription { source, .. } => vec![*source],
        ExprKind::ByUse { expr, .. } => vec![*expr],
        ExprKind::Reborrow { source, .. } => vec![*source],
        _ => return None,
    };
    for o in ops {
        if has_return(t, o, bound) {
            return Some(o);
        }
        if !plain(t, o, bound) {
            return None;
        }
    }
    None
}

fn plain(t: &Thir<'_>, id: ExprId, bound: &[(*const (), String)]) -> bool {
    if bound.iter().any(|x| x.0 == &t[id] as *const Expr<'_> as *const ()) { return true; }
    match &t[id].kind {
        ExprKind::Scope { value, .. } => plain(t, *value, bound),
        ExprKind::ValueExpr { source } => plain(t, *source, bound),
        ExprKind::Borrow { borrow_kind, arg } => matches!(borrow_kind, rustc_middle::mir::BorrowKind::Shared) && plain(t, *arg, bound),
        ExprKind::Deref { arg } => plain(t, *arg, bound),
        ExprKind::Field { lhs, .. } => plain(t, *lhs, bound),
        ExprKind::VarRef { .. } | ExprKind::UpvarRef { .. } | ExprKind::Literal { .. } | ExprKind::NonHirLiteral { .. } | ExprKind::ZstLiteral { .. } | ExprKind::NamedConst { .. } => true,
        ExprKind::Adt(a) => a.fields.iter().all(|f| plain(t, f.expr, bound)),
        ExprKind::Tuple { fields } => fields.iter().all(|f| plain(t, *f, bound)),
        _ => false,
    }
}

fn binds_mut(p: &Pat<'_>) -> bool {
    let mut b = false;
    p.walk_always(|q| {
        if let PatKind::Binding { mode, .. } = &q.kind {
            if let rustc_hir::ByRef::Yes(_, m) = mode.0 {
                if m.is_mut() {
                    b = true;
                }
            }
        }
    });
    b
}

fn collect_vars(p: &Pat<'_>, v: &mut Vec<rustc_hir::HirId>) {
    p.walk_always(|q| {
        if let PatKind::Binding { var, .. } = &q.kind {
            if !v.contains(&var.0) {
                v.push(var.0);
            }
        }
    });
}
