//! Locating items of the analysed crates, instantiating them, and recording proof obligations.
use crate::interp::*;
use num_bigint::BigUint;
use num_traits::One;
use crate::poly::*;
use crate::val::*;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CrateNum, DefId};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ok,
    Violation,
    Undecided,
}
pub struct Ob {
    pub prop: String,
    pub key: String,
    pub st: St,
    pub site: String,
    pub rule: String,
    pub detail: String,
}

pub struct Ctx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub it: Interp<'tcx>,
    pub obs: Vec<Ob>,
    pub plonky: CrateNum,
    pub free: BTreeMap<String, Vec<DefId>>,
    pub adts: BTreeMap<String, Vec<DefId>>,
    pub traits: BTreeMap<String, Vec<DefId>>,
    pub consts: BTreeMap<String, Vec<DefId>>,
    pub cur: String,
    /// (this process, number of processes)
    pub shard: (usize, usize),
    units: usize,
    in_unit: bool,
}

/// rules whose obligations are identities of field elements alone, and so make sense for symbols with special values
const SPECIAL_CASES: &[&str] = &["quot"];

impl<'tcx> Ctx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let local = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let plonky = if local == "plonky" {
            rustc_hir::def_id::LOCAL_CRATE
        } else {
            tcx.crates(()).iter().cloned().find(|c| tcx.crate_name(*c).as_str() == "plonky").expect("plonky is a dependency")
        };
        let mut c = Ctx {
            tcx,
            it: Interp::new(tcx),
            obs: vec![],
            plonky,
            free: BTreeMap::new(),
            adts: BTreeMap::new(),
            traits: BTreeMap::new(),
            consts: BTreeMap::new(),
            cur: String::new(),
            shard: (0, 1),
            units: 0,
            in_unit: false,
        };
        let mut mods = vec![plonky.as_def_id()];
        if plonky != rustc_hir::def_id::LOCAL_CRATE {
            c.add_local();
        }
        if plonky == rustc_hir::def_id::LOCAL_CRATE {
            c.add_local();
        } else {
            let mut seen = std::collections::HashSet::new();
            while let Some(m) = mods.pop() {
                if !seen.insert(m) {
                    continue;
                }
                for ch in tcx.module_children(m) {
                    if let Res::Def(k, d) = ch.res {
                        if d.krate == plonky {
                            c.add_item(k, d);
                            if k == DefKind::Mod {
                                mods.push(d)
                            }
                        }
                    }
                }
            }
        }
        c.it.field_trait = c.traits.get("Field").and_then(|v| v.first().cloned());
        c
    }
    fn add_local(&mut self) {
        let tcx = self.tcx;
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            self.add_item(tcx.def_kind(d), d);
        }
    }
    fn add_item(&mut self, k: DefKind, d: DefId) {
        let m = match k {
            DefKind::Fn => &mut self.free,
            DefKind::Struct | DefKind::Enum => &mut self.adts,
            DefKind::Trait => &mut self.traits,
            DefKind::Const { .. } => &mut self.consts,
            _ => return,
        };
        let n = self.tcx.item_name(d).to_string();
        let e = m.entry(n).or_default();
        if !e.contains(&d) {
            e.push(d)
        }
    }
    pub fn find_fn(&self, n: &str) -> R<DefId> {
        let (module, nm) = n.rsplit_once("::").map(|(a, b)| (Some(a), b)).unwrap_or((None, n));
        match self.free.get(nm) {
            Some(v) if v.len() == 1 => Ok(v[0]),
            Some(v) => {
                if let Some(m) = module {
                    if let Some(d) = v.iter().find(|d| self.tcx.def_path_str(**d).contains(m)) {
                        return Ok(*d);
                    }
                }
                unsup(format!("ambiguous anchor fn {}", n))
            }
            None => unsup(format!("anchor fn {} not found", n)),
        }
    }
    pub fn find_adt(&self, n: &str) -> R<DefId> {
        match self.adts.get(n) {
            Some(v) => Ok(v[0]),
            None => unsup(format!("anchor type {} not found", n)),
        }
    }
    pub fn find_trait(&self, n: &str) -> R<DefId> {
        match self.traits.get(n) {
            Some(v) => Ok(v[0]),
            None => unsup(format!("anchor trait {} not found", n)),
        }
    }
    pub fn trait_item(&self, tr: &str, n: &str) -> R<DefId> {
        let t = self.find_trait(tr)?;
        match self.tcx.associated_item_def_ids(t).iter().find(|d| self.tcx.item_name(**d).as_str() == n) {
            Some(d) => Ok(*d),
            None => unsup(format!("anchor {}::{} not found", tr, n)),
        }
    }
    pub fn method(&self, ty: &str, n: &str) -> R<DefId> {
        let a = self.find_adt(ty)?;
        for i in self.tcx.inherent_impls(a) {
            for d in self.tcx.associated_item_def_ids(*i) {
                if self.tcx.opt_item_name(*d).map(|x| x.as_str() == n).unwrap_or(false) && self.tcx.def_kind(*d) == DefKind::AssocFn {
                    return Ok(*d);
                }
            }
        }
        unsup(format!("anchor {}::{} not found", ty, n))
    }
    pub fn methods_of(&self, ty: &str) -> Vec<DefId> {
        let mut v = vec![];
        if let Ok(a) = self.find_adt(ty) {
            for i in self.tcx.inherent_impls(a) {
                for d in self.tcx.associated_item_def_ids(*i) {
                    if self.tcx.def_kind(*d) == DefKind::AssocFn {
                        v.push(*d)
                    }
                }
            }
        }
        v
    }
    pub fn const_usize(&mut self, n: &str) -> R<usize> {
        let d = match self.consts.get(n) {
            Some(v) => v[0],
            None => return unsup(format!("anchor const {} not found", n)),
        };
        self.it.eval_const_def(d, ty::List::empty(), None)?.usz()
    }
    pub fn ty_of(&self, adt: DefId, args: &[Ty<'tcx>]) -> Ty<'tcx> {
        let a: Vec<ty::GenericArg<'tcx>> = args.iter().map(|t| (*t).into()).collect();
        Ty::new_adt(self.tcx, self.tcx.adt_def(adt), self.tcx.mk_args(&a))
    }
    /// implementors (self types) of a trait, without generics
    pub fn plain_implementors(&self, tr: DefId) -> Vec<Ty<'tcx>> {
        let mut v: Vec<Ty<'tcx>> = vec![];
        for i in self.tcx.all_impls(tr) {
            let st = self.tcx.type_of(i).instantiate_identity().skip_norm_wip();
            if let ty::Adt(_, a) = st.kind() {
                if a.len() == 0 && !v.contains(&st) {
                    v.push(st)
                }
            }
        }
        v.sort_by_key(|t| t.to_string());
        v
    }
    pub fn assoc_ty(&self, tr: &str, nm: &str, t: Ty<'tcx>) -> R<Ty<'tcx>> {
        let d = self.trait_item(tr, nm)?;
        let p = Ty::new_projection(self.tcx, ty::IsRigid::No, d, [t]);
        Ok(self.it.norm(p))
    }
    /// pairs (C, InnerC) of cycle curves
    pub fn curve_pairs(&self) -> R<Vec<(Ty<'tcx>, Ty<'tcx>)>> {
        let hs = self.plain_implementors(self.find_trait("HaloCurve")?);
        let mut out = vec![];
        for &c in &hs {
            for &i in &hs {
                if self.assoc_ty("Curve", "ScalarField", c)? == self.assoc_ty("Curve", "BaseField", i)? {
                    out.push((c, i))
                }
            }
        }
        Ok(out)
    }
    pub fn scalar(&self, c: Ty<'tcx>) -> R<Ty<'tcx>> {
        self.assoc_ty("Curve", "ScalarField", c)
    }
    pub fn base(&self, c: Ty<'tcx>) -> R<Ty<'tcx>> {
        self.assoc_ty("Curve", "BaseField", c)
    }
    /// trait names a type parameter is bounded by, and whether it has an associated-type equality
    pub fn bounds(&self, d: DefId, idx: u32) -> (Vec<String>, bool) {
        let mut b = vec![];
        let mut proj = false;
        let preds = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        for c in preds.clauses.iter() {
            match c.skip_norm_wip().kind().skip_binder() {
                ty::ClauseKind::Trait(t) => {
                    if let ty::Param(p) = t.self_ty().kind() {
                        if p.index == idx {
                            b.push(self.tcx.item_name(t.def_id()).to_string())
                        }
                    }
                }
                ty::ClauseKind::Projection(p) => {
                    if let ty::Param(q) = p.self_ty().kind() {
                        if q.index == idx && self.tcx.item_name(p.def_id()).as_str() == "BaseField" {
                            proj = true
                        }
                    }
                }
                _ => {}
            }
        }
        (b, proj)
    }
    /// instantiate the generics of d: curve parameters get c (or inner when tied to another curve by an
    /// associated-type equality), field parameters get fields[k] in order
    pub fn args_for(&self, d: DefId, c: Ty<'tcx>, inner: Ty<'tcx>, fields: &[Ty<'tcx>]) -> GenericArgsRef<'tcx> {
        let mut k = 0;
        ty::GenericArgs::for_item(self.tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => {
                let (b, proj) = self.bounds(d, p.index);
                if b.iter().any(|x| x == "Curve" || x == "HaloCurve") {
                    (if proj { inner } else { c }).into()
                } else if b.iter().any(|x| x == "Field") {
                    k += 1;
                    fields[(k - 1).min(fields.len() - 1)].into()
                } else {
                    self.tcx.types.unit.into()
                }
            }
            ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(self.tcx, 4).into(),
        })
    }
    pub fn ret_ty(&self, d: DefId, a: GenericArgsRef<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.fn_sig(d).instantiate(self.tcx, a).skip_norm_wip().output().skip_binder();
        self.it.norm(self.tcx.erase_and_anonymize_regions(t))
    }
    pub fn arg_tys(&self, d: DefId, a: GenericArgsRef<'tcx>) -> Vec<Ty<'tcx>> {
        let s = self.tcx.fn_sig(d).instantiate(self.tcx, a).skip_norm_wip();
        s.inputs().skip_binder().iter().map(|t| self.it.norm(self.tcx.erase_and_anonymize_regions(*t))).collect()
    }
    pub fn call(&mut self, d: DefId, a: GenericArgsRef<'tcx>, args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        let dt = self.ret_ty(d, a);
        self.it.call_def(d, a, args, dt, false)
    }
    pub fn site(&self, d: DefId) -> String {
        let sp = self.tcx.def_span(d);
        let f = self.tcx.sess.source_map().span_to_filename(sp).prefer_local_unconditionally().to_string();
        format!("{} ({})", self.tcx.def_path_str(d), f.trim_start_matches("/repo/"))
    }
    pub fn impl_site(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        match Instance::try_resolve(self.tcx, self.it.te, d, a) {
            Ok(Some(i)) => self.site(i.def_id()),
            _ => self.site(d),
        }
    }

    pub fn ob(&mut self, key: &str, site: &str, rule: &str, st: St, detail: String) {
        if !self.in_unit && self.shard.0 != 0 && key != "whole property" {
            return;
        }
        self.obs.push(Ob { prop: self.cur.clone(), key: key.into(), st, site: site.into(), rule: rule.into(), detail });
    }
    pub fn check(&mut self, key: &str, site: &str, rule: &str, ok: bool, detail: impl FnOnce() -> String) {
        if ok {
            self.ob(key, site, rule, St::Ok, String::new())
        } else {
            let d = detail();
            self.ob(key, site, rule, St::Violation, d)
        }
    }
    /// Where the code compared symbols, they were taken to differ. The cases in which they are equal follow: the unit
    /// is analysed again with one symbol replaced by the constant it is compared with.
    fn special_cases(&mut self, key: &str, f: &mut dyn FnMut(&mut Self) -> R<()>) {
        let mut cases: Vec<(String, TermId, Poly)> = vec![];
        for t in self.it.generic.clone() {
            let Term::P(p) = term(t) else { continue };
            let m = field_p(p.fid);
            let small = |c: &BigUint| c.bits() <= 16 || (&m - c).bits() <= 16;
            let unit = |c: &BigUint| c.is_one() || (&m - c).is_one();
            if p.t.iter().any(|(mo, c)| if mo.is_empty() { !small(c) } else { !unit(c) }) {
                continue;
            }
            let linear = p.t.iter().find(|(mo, _)| mo.len() == 1 && mo[0].1 == 1 && matches!(term(mo[0].0), Term::Name(_)) && p.t.keys().filter(|k| k.iter().any(|x| x.0 == mo[0].0)).count() == 1);
            let Some((mo, c)) = linear else { continue };
            let a = mo[0].0;
            let at = Poly::atom(p.fid, a);
            // c a + r = 0
            let r = p.sub(&at.scale(c));
            let v = if c.is_one() { Poly::zero(p.fid).sub(&r) } else { r };
            if v.as_const().is_none() {
                continue;
            }
            cases.push((format!("{} = {}", show(a), v.show()), a, v));
        }
        cases.sort_by(|x, y| x.0.cmp(&y.0));
        for (n, a, v) in cases.into_iter().take(6) {
            let from = self.obs.len();
            self.it.reset();
            set_special(Some((a, v)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
            set_special(None);
            let done = matches!(r, Ok(Ok(())));
            let mut i = 0;
            self.obs.retain_mut(|o| {
                i += 1;
                if i <= from {
                    return true;
                }
                o.key = format!("{} where {}", o.key, n);
                done && o.st != St::Undecided
            });
            if !done {
                self.ob(&format!("{} where {}", key, n), "", "analysable", St::Undecided, "the special case is not followed".into());
            }
        }
    }
    /// run one analysis unit; an unsupported construct leaves its obligations undecided
    pub fn unit(&mut self, key: &str, site: &str, mut f: impl FnMut(&mut Self) -> R<()>) {
        let nested = self.in_unit;
        if !nested {
            self.units += 1;
            if (self.units - 1) % self.shard.1 != self.shard.0 {
                return;
            }
        }
        self.in_unit = true;
        self.it.reset();
        let t0 = std::time::Instant::now();
        if !nested { self.it.generic.clear(); }
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self))) {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                unsup(format!("internal error of the analyser: {}", m))
            }
        };
        if std::env::var("PLONKY_TIME").is_ok() {
            eprintln!("TIME {:.2} {}", t0.elapsed().as_secs_f64(), key);
        }
        match r {
            Ok(()) => {}
            Err(Stop::Unsupported(s)) => self.ob(key, site, "analysable", St::Undecided, s),
            Err(Stop::Panic(s)) => self.check(&format!("{} completes", key), site, "the computation completes on every admissible input", false, || format!("panics: {}", s)),
        }
        if !nested && SPECIAL_CASES.contains(&self.cur.as_str()) {
            self.special_cases(key, &mut f);
        }
        self.in_unit = nested;
    }
}

pub fn fvec<'tcx>(fid: FieldId, pre: &str, n: usize) -> Vec<Poly> {
    (0..n).map(|i| Poly::atom(fid, name(&format!("{}{}", pre, i)))).collect()
}
pub fn fseq<'tcx>(v: &[Poly]) -> V<'tcx> {
    seq(v.iter().map(|p| V::F(p.clone())).collect())
}
pub fn sref<'tcx>(v: Vec<V<'tcx>>) -> V<'tcx> {
    ptr_to(seq(v))
}
pub fn fref<'tcx>(v: &[Poly]) -> V<'tcx> {
    ptr_to(fseq(v))
}
