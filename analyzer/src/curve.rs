//! Group law: every point operation equals the affine chord-tangent law, in every case distinction.
use crate::base::*;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{GenericArgsRef, Ty};
use std::collections::{BTreeSet, HashMap};

/// a spec-level point
#[derive(Clone, Debug)]
pub struct Pt {
    pub inf: bool,
    pub x: Poly,
    pub y: Poly,
}
pub struct CurveCx<'tcx> {
    pub c: Ty<'tcx>,
    pub fid: FieldId,
    pub a: Poly,
    pub b: Poly,
    pub aff: Ty<'tcx>,
    pub proj: Ty<'tcx>,
}

pub struct Path<T> {
    pub conds: Vec<(TermId, usize, bool)>,
    pub r: R<T>,
}

/// what a path condition says about field elements: substitution for the equalities, polynomials that are nonzero
pub struct Facts {
    pub m: HashMap<TermId, Poly>,
    pub feasible: bool,
}

impl<'tcx> Ctx<'tcx> {
    /// every path of f (field comparisons are partitioned, not assumed)
    pub fn paths<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<Path<T>>> {
        let mut out = vec![];
        let mut dec: Vec<usize> = vec![];
        let old = self.it.eq_generic;
        self.it.eq_generic = false;
        'o: loop {
            self.it.decisions = dec.clone();
            self.it.reset_path();
            let r = f(self);
            out.push(Path { conds: self.it.conds.clone(), r });
            if out.len() >= max {
                self.it.eq_generic = old;
                return unsup(format!("more than {} paths", max));
            }
            let tr = self.it.trace.clone();
            let mut k = tr.len();
            loop {
                if k == 0 {
                    break 'o;
                }
                k -= 1;
                if tr[k].1 + 1 < tr[k].2 {
                    dec = tr[..k].iter().map(|x| x.1).collect();
                    dec.push(tr[k].1 + 1);
                    break;
                }
            }
        }
        self.it.eq_generic = old;
        self.it.decisions.clear();
        Ok(out)
    }
    pub fn facts(&self, conds: &[(TermId, usize, bool)], nonzero: &BTreeSet<TermId>) -> Facts {
        let mut m: HashMap<TermId, Poly> = HashMap::new();
        let mut ne: Vec<Poly> = vec![];
        let mut feasible = true;
        let strip = |p: &Poly| -> Poly {
            // divide by monomials of atoms known to be nonzero
            let mut q = p.normalised();
            for a in nonzero {
                loop {
                    if q.t.is_empty() || !q.t.keys().all(|mo| mo.iter().any(|(x, e)| x == a && *e > 0)) {
                        break;
                    }
                    q = q.mul(&Poly::atom(q.fid, *a).inv());
                }
            }
            q
        };
        let mut eqs = vec![];
        for (t, d, _) in conds {
            if let Term::App(op, a) = term(*t) {
                if op == "is0" {
                    if let Term::P(p) = term(a[0]) {
                        if *d == 1 {
                            eqs.push(p)
                        } else {
                            ne.push(p)
                        }
                    }
                }
            }
        }
        for p in eqs {
            let q = strip(&p.subst(&m));
            if q.is_zero() {
                continue;
            }
            if q.as_const().is_some() || self.is_product_of(&q, &ne, &m, nonzero, &strip) {
                feasible = false;
                continue;
            }
            // an atom that occurs in exactly one monomial, linearly and alone
            let mut pick = None;
            for a in q.atoms() {
                let occ: Vec<_> = q.t.iter().filter(|(mo, _)| mo.iter().any(|x| x.0 == a)).collect();
                if occ.len() == 1 && occ[0].0.iter().all(|(x, e)| (*x == a && *e == 1) || nonzero.contains(x)) {
                    let mut one = std::collections::BTreeMap::new();
                    one.insert(occ[0].0.clone(), occ[0].1.clone());
                    let mono = Poly { fid: q.fid, t: std::rc::Rc::new(one) };
                    let coef = mono.mul(&Poly::atom(q.fid, a).inv());
                    let rest = q.sub(&mono);
                    pick = Some((a, rest.neg().mul(&coef.inv())));
                }
            }
            match pick {
                Some((a, v)) => {
                    if nonzero.contains(&a) && v.is_zero() {
                        feasible = false;
                    }
                    let one: HashMap<TermId, Poly> = [(a, v.clone())].into_iter().collect();
                    for x in m.values_mut() {
                        *x = x.subst(&one);
                    }
                    m.insert(a, v);
                }
                None => {} // the equality is not used: the obligation is then decided without it
            }
        }
        let fields: BTreeSet<FieldId> = ne.iter().map(|p| p.fid).collect();
        for f in fields {
            let mut prod = Poly::one(f);
            for p in ne.iter().filter(|p| p.fid == f) {
                let q = p.subst(&m);
                if q.is_zero() {
                    feasible = false;
                }
                if prod.t.len() < 400 && q.t.len() < 40 {
                    prod = prod.mul(&q);
                }
            }
            if prod.normalised().subst(&m).is_zero() {
                feasible = false;
            }
        }
        Facts { m, feasible }
    }

    /// q is, up to a constant, a product of polynomials known to be nonzero (each at most twice)
    fn is_product_of(&self, q: &Poly, ne: &[Poly], m: &HashMap<TermId, Poly>, nonzero: &BTreeSet<TermId>, strip: &dyn Fn(&Poly) -> Poly) -> bool {
        // squares of nonzero ordinates have been rewritten by the curve equation: they do not strip off
        let ys = nonzero.iter().filter(|a| has_rule(**a)).map(|a| Poly::atom(q.fid, *a).subst(m));
        let mut fs: Vec<Poly> = vec![];
        for f in ys.chain(ne.iter().filter(|p| p.fid == q.fid).map(|p| strip(&p.subst(m)))) {
            if f.as_const().is_none() && fs.len() < 6 && !fs.iter().any(|g| g.sub(&f).is_zero()) {
                fs.push(f);
            }
        }
        let mut cur = vec![Poly::one(q.fid)];
        for f in &fs {
            let mut nx = vec![];
            for c in &cur {
                nx.push(c.clone());
                let c1 = c.mul(f);
                if c1.t.len() <= 200 {
                    nx.push(c1.mul(f));
                    nx.push(c1);
                }
            }
            cur = nx;
        }
        let lead = |p: &Poly| p.t.iter().next().map(|(k, v)| (k.clone(), v.clone()));
        cur.iter().any(|c| {
            match (lead(c), lead(q)) {
                (Some((k, v)), Some((k2, v2))) if k == k2 && c.t.len() == q.t.len() => {
                    let cst = |v: &num_bigint::BigUint| Poly::constant(q.fid, v.clone());
                    q.mul(&cst(&v)).sub(&c.mul(&cst(&v2))).is_zero()
                }
                _ => false,
            }
        })
    }

    pub fn curve_cx(&mut self, c: Ty<'tcx>) -> R<CurveCx<'tcx>> {
        let bf = self.base(c)?;
        let fid = match self.it.field_ty(bf) {
            Some(f) => f,
            None => return unsup("base field"),
        };
        let a = self.it.assoc_const_of(c, "A")?;
        let b = self.it.assoc_const_of(c, "B")?;
        let (a, b) = (self.as_field(&a, bf)?, self.as_field(&b, bf)?);
        let aff = self.ty_of(self.find_adt("AffinePoint")?, &[c]);
        let proj = self.ty_of(self.find_adt("ProjectivePoint")?, &[c]);
        Ok(CurveCx { c, fid, a, b, aff, proj })
    }
    pub fn as_field(&mut self, v: &V<'tcx>, _t: Ty<'tcx>) -> R<Poly> {
        let v = self.it.deref_all(v)?;
        v.poly()
    }
    fn point(&mut self, t: Ty<'tcx>, f: &[(&str, V<'tcx>)]) -> R<V<'tcx>> {
        let rustc_middle::ty::Adt(d, _) = t.kind() else { return unsup("point type") };
        let mut fs = vec![];
        for fd in &d.non_enum_variant().fields {
            match f.iter().find(|x| x.0 == fd.name.as_str()) {
                Some(x) => fs.push(x.1.clone()),
                None => return unsup(format!("point field {}", fd.name)),
            }
        }
        Ok(adt(t, 0, fs))
    }
    fn pfield(&mut self, v: &V<'tcx>, n: &str) -> R<V<'tcx>> {
        let v = self.it.deref_all(v)?;
        let V::Adt(a) = &v else { return unsup(format!("point value {}", v.show_d(2))) };
        let rustc_middle::ty::Adt(d, _) = a.ty.kind() else { return unsup("point type") };
        match d.non_enum_variant().fields.iter().position(|f| f.name.as_str() == n) {
            Some(i) => Ok(a.f[i].clone()),
            None => unsup(format!("point has no field {}", n)),
        }
    }
    pub fn aff_v(&mut self, k: &CurveCx<'tcx>, p: &Pt) -> R<V<'tcx>> {
        if p.inf {
            let z = V::F(Poly::zero(k.fid));
            return self.point(k.aff, &[("x", z.clone()), ("y", z), ("zero", V::Int(1))]);
        }
        self.point(k.aff, &[("x", V::F(p.x.clone())), ("y", V::F(p.y.clone())), ("zero", V::Int(0))])
    }
    pub fn proj_v(&mut self, k: &CurveCx<'tcx>, p: &Pt, z: &Poly) -> R<V<'tcx>> {
        if p.inf {
            let o = V::F(Poly::zero(k.fid));
            return self.point(k.proj, &[("x", o.clone()), ("y", o.clone()), ("z", o), ("zero", V::Int(1))]);
        }
        self.point(
            k.proj,
            &[("x", V::F(p.x.mul(z))), ("y", V::F(p.y.mul(z))), ("z", V::F(z.clone())), ("zero", V::Int(0))],
        )
    }
    /// concretisation of a point value (affine or projective); None: z is identically zero
    pub fn point_of(&mut self, v: &V<'tcx>, m: &HashMap<TermId, Poly>) -> R<Option<Pt>> {
        let zero = self.pfield(v, "zero")?.int()?;
        let x = self.pfield(v, "x")?.poly()?.subst(m);
        let y = self.pfield(v, "y")?.poly()?.subst(m);
        if zero != 0 {
            return Ok(Some(Pt { inf: true, x, y }));
        }
        match self.pfield(v, "z") {
            Ok(z) => {
                let z = z.poly()?.subst(m);
                if z.is_zero() {
                    return Ok(None);
                }
                let zi = z.inv();
                Ok(Some(Pt { inf: false, x: x.mul(&zi), y: y.mul(&zi) }))
            }
            Err(_) => Ok(Some(Pt { inf: false, x, y })),
        }
    }
    pub fn spec_dbl(&self, k: &CurveCx<'tcx>, p: &Pt) -> Pt {
        if p.inf {
            return p.clone();
        }
        let two = Poly::int(k.fid, 2);
        let l = p.x.mul(&p.x).mul(&Poly::int(k.fid, 3)).add(&k.a).mul(&p.y.mul(&two).inv());
        let x = l.mul(&l).sub(&p.x.mul(&two));
        let y = l.mul(&p.x.sub(&x)).sub(&p.y);
        Pt { inf: false, x, y }
    }
    pub fn spec_add(&self, k: &CurveCx<'tcx>, p: &Pt, q: &Pt) -> Pt {
        if p.inf {
            return q.clone();
        }
        if q.inf {
            return p.clone();
        }
        if p.x.sub(&q.x).is_zero() {
            if p.y.sub(&q.y).is_zero() {
                return self.spec_dbl(k, p);
            }
            return Pt { inf: true, x: Poly::zero(k.fid), y: Poly::zero(k.fid) };
        }
        let l = q.y.sub(&p.y).mul(&q.x.sub(&p.x).inv());
        let x = l.mul(&l).sub(&p.x).sub(&q.x);
        let y = l.mul(&p.x.sub(&x)).sub(&p.y);
        Pt { inf: false, x, y }
    }
    pub fn pt(&self, k: &CurveCx<'tcx>, n: &str) -> Pt {
        let (x, y) = (name(&format!("{}x", n)), name(&format!("{}y", n)));
        let (xp, yp) = (Poly::atom(k.fid, x), Poly::atom(k.fid, y));
        let rhs = xp.mul(&xp).mul(&xp).add(&k.a.mul(&xp)).add(&k.b);
        set_rule(y, 2, rhs);
        Pt { inf: false, x: xp, y: yp }
    }
    pub fn pt_sub(&self, p: &Pt, m: &HashMap<TermId, Poly>) -> Pt {
        Pt { inf: p.inf, x: p.x.subst(m), y: p.y.subst(m) }
    }
    pub fn pt_eq(&self, a: &Pt, b: &Pt, m: &HashMap<TermId, Poly>) -> bool {
        if a.inf || b.inf {
            return a.inf == b.inf;
        }
        let z = |p: Poly| p.normalised().subst(m).is_zero();
        z(a.x.sub(&b.x)) && z(a.y.sub(&b.y))
    }
    pub fn pt_show(&self, a: &Pt) -> String {
        if a.inf {
            "infinity".into()
        } else {
            format!("({}, {})", a.x.show(), a.y.show())
        }
    }
    /// obligations for one operation in one scenario
    #[allow(clippy::too_many_arguments)]
    pub fn group_case(
        &mut self,
        k: &CurveCx<'tcx>,
        key: &str,
        site: &str,
        nonzero: &BTreeSet<TermId>,
        d: DefId,
        ga: GenericArgsRef<'tcx>,
        args: &[V<'tcx>],
        spec: &dyn Fn(&Ctx<'tcx>, &Facts) -> Option<Vec<Pt>>,
    ) -> R<()> {
        let _ = k;
        let args = args.to_vec();
        let ps = self.paths(200, |s| s.call(d, ga, args.clone()))?;
        let mut n = 0;
        for p in ps {
            let fx = self.facts(&p.conds, nonzero);
            if !fx.feasible {
                continue;
            }
            let Some(want) = spec(self, &fx) else { continue };
            let want: Vec<Pt> = want.iter().map(|w| self.pt_sub(w, &fx.m)).collect();
            n += 1;
            let k2 = if n == 1 { key.to_string() } else { format!("{} path {}", key, n) };
            let rule = "the computed point equals the affine chord-tangent law's, as a rational function of the coordinates";
            let r = match p.r {
                Ok(r) => r,
                Err(Stop::Panic(m)) => {
                    let cs: Vec<String> = p.conds.iter().map(|(t, d, _)| format!("{}={}", show(*t), d)).collect();
                    self.check(&k2, site, rule, false, || format!("diverges: {} when {}", m, cs.join(", ")));
                    continue;
                }
                Err(e) => return Err(e),
            };
            let got = if want.len() == 1 && !matches!(self.it.deref_all(&r)?, V::Seq(_)) {
                vec![r]
            } else {
                self.it.seq_items(&r)?.to_vec()
            };
            if got.len() != want.len() {
                self.check(&k2, site, rule, false, || format!("{} results, expected {}", got.len(), want.len()));
                continue;
            }
            for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
                let k3 = if got.len() == 1 { k2.clone() } else { format!("{} result {}", k2, i) };
                let gp = self.point_of(g, &fx.m)?;
                let ok = match &gp {
                    Some(gp) => self.pt_eq(gp, w, &fx.m),
                    None => false,
                };
                let detail = || {
                    let g = gp.as_ref().map(|g| self.pt_show(g)).unwrap_or("a nonzero point with z = 0".into());
                    let mut s = format!("computed {} expected {}", g, self.pt_show(w));
                    s.truncate(600);
                    s
                };
                let det = if ok { String::new() } else { detail() };
                self.check(&k3, site, rule, ok, || det);
            }
        }
        if n == 0 {
            return unsup(format!("{}: no feasible path", key));
        }
        Ok(())
    }

    pub fn all_curves(&self) -> R<Vec<Ty<'tcx>>> {
        Ok(self.plain_implementors(self.find_trait("Curve")?))
    }

    pub fn check_group_law(&mut self) -> R<()> {
        for c in self.all_curves()? {
            let cn = self.it.head(c);
            clear_rules();
            let k = self.curve_cx(c)?;
            let (p, q) = (self.pt(&k, "P"), self.pt(&k, "Q"));
            let o = Pt { inf: true, x: Poly::zero(k.fid), y: Poly::zero(k.fid) };
            let neg = |p: &Pt| Pt { inf: p.inf, x: p.x.clone(), y: p.y.neg() };
            let zs = [name("z1"), name("z2")];
            let (z1, z2) = (Poly::atom(k.fid, zs[0]), Poly::atom(k.fid, zs[1]));
            let mut nz: BTreeSet<TermId> = zs.iter().cloned().collect();
            // odd group order: no point has y = 0
            nz.insert(name("Py"));
            nz.insert(name("Qy"));
            let scen: Vec<(&str, Pt, Pt)> = vec![
                ("P+Q", p.clone(), q.clone()),
                ("P+P", p.clone(), p.clone()),
                ("P-P", p.clone(), neg(&p)),
                ("O+Q", o.clone(), q.clone()),
                ("P+O", p.clone(), o.clone()),
                ("O+O", o.clone(), o.clone()),
            ];
            let add = self.tcx.lang_items().add_trait().ok_or(Stop::Unsupported("Add".into()))?;
            let addm = self.tcx.associated_item_def_ids(add)[1];
            let addm = if self.tcx.item_name(addm).as_str() == "add" { addm } else { self.tcx.associated_item_def_ids(add)[0] };
            let neg_t = self.tcx.lang_items().neg_trait().ok_or(Stop::Unsupported("Neg".into()))?;
            let negm = *self.tcx.associated_item_def_ids(neg_t).iter().find(|d| self.tcx.item_name(**d).as_str() == "neg").unwrap();
            for (lt, rt, nm) in [(k.proj, k.proj, "projective+projective"), (k.proj, k.aff, "projective+affine"), (k.aff, k.aff, "affine+affine")] {
                let ga = self.tcx.mk_args(&[lt.into(), rt.into()]);
                let site = self.impl_site(addm, ga);
                for (sn, a, b) in &scen {
                    let key = format!("{} {} {}", cn, nm, sn);
                    let (kk, ss, nzz) = (key.clone(), site.clone(), nz.clone());
                    let (k, z1, z2) = (&k, &z1, &z2);
                    self.unit(&key, &site, move |s| {
                        let l = if lt == k.aff { s.aff_v(k, a)? } else { s.proj_v(k, a, z1)? };
                        let r = if rt == k.aff { s.aff_v(k, b)? } else { s.proj_v(k, b, z2)? };
                        let (a, b) = (a.clone(), b.clone());
                        s.group_case(k, &kk, &ss, &nzz, addm, ga, &[l, r], &|s, f| {
                            let (a, b) = (s.pt_sub(&a, &f.m), s.pt_sub(&b, &f.m));
                            Some(vec![s.spec_add(k, &a, &b)])
                        })
                    });
                }
            }
            // unary operations
            for (ty, nm) in [(k.aff, "AffinePoint"), (k.proj, "ProjectivePoint")] {
                for (sn, a) in [("P", &p), ("O", &o)] {
                    let mut ops: Vec<(&str, DefId, GenericArgsRef<'tcx>, bool)> = vec![];
                    for op in ["double", "to_affine", "to_projective", "endomorphism", "neg"] {
                        if op == "endomorphism" && !self.plain_implementors(self.find_trait("HaloCurve")?).contains(&c) {
                            continue;
                        }
                        if let Ok(d) = self.method(nm, op) {
                            ops.push((op, d, self.tcx.mk_args(&[c.into()]), true));
                        }
                    }
                    ops.push(("unary minus", negm, self.tcx.mk_args(&[ty.into()]), false));
                    for (op, d, ga, byref) in ops {
                        let key = format!("{} {} {} of {}", cn, nm, op, sn);
                        let site = self.impl_site(d, ga);
                        let (kk, ss, nzz) = (key.clone(), site.clone(), nz.clone());
                        let (k, z1) = (&k, &z1);
                        self.unit(&key, &site, move |s| {
                            let v = if ty == k.aff { s.aff_v(k, a)? } else { s.proj_v(k, a, z1)? };
                            let v = if byref { ptr_to(v) } else { v };
                            let a = a.clone();
                            let zeta = if op == "endomorphism" {
                                let z = s.it.assoc_const_of(k.c, "ZETA")?;
                                s.it.deref_all(&z)?.poly()?
                            } else {
                                Poly::one(k.fid)
                            };
                            s.group_case(k, &kk, &ss, &nzz, d, ga, &[v], &|s, f| {
                                let a = s.pt_sub(&a, &f.m);
                                Some(vec![match op {
                                    "double" => s.spec_dbl(k, &a),
                                    "neg" | "unary minus" => Pt { inf: a.inf, x: a.x.clone(), y: a.y.neg() },
                                    "endomorphism" => Pt { inf: a.inf, x: a.x.mul(&zeta), y: a.y.clone() },
                                    _ => a,
                                }])
                            })
                        });
                    }
                }
            }
            clear_rules();
        }
        Ok(())
    }

    fn sum_spec(&self, k: &CurveCx<'tcx>, l: &[Pt], f: &Facts) -> Pt {
        let mut acc = Pt { inf: true, x: Poly::zero(k.fid), y: Poly::zero(k.fid) };
        for p in l {
            let p = self.pt_sub(p, &f.m);
            acc = self.spec_add(k, &acc, &p);
        }
        acc
    }

    /// batched conversions and summations, and point equality
    pub fn check_point_batches(&mut self) -> R<()> {
        for c in self.all_curves()? {
            let cn = self.it.head(c);
            clear_rules();
            let k = self.curve_cx(c)?;
            let (p, q) = (self.pt(&k, "P"), self.pt(&k, "Q"));
            let o = Pt { inf: true, x: Poly::zero(k.fid), y: Poly::zero(k.fid) };
            let np = Pt { inf: false, x: p.x.clone(), y: p.y.neg() };
            let zs = [name("z1"), name("z2"), name("z3"), name("z4")];
            let zp: Vec<Poly> = zs.iter().map(|z| Poly::atom(k.fid, *z)).collect();
            let mut nz: BTreeSet<TermId> = zs.iter().cloned().collect();
            nz.insert(name("Py"));
            nz.insert(name("Qy"));
            let lists: Vec<(&str, Vec<Pt>)> = vec![
                ("[]", vec![]),
                ("[P]", vec![p.clone()]),
                ("[O]", vec![o.clone()]),
                ("[P,Q]", vec![p.clone(), q.clone()]),
                ("[P,P]", vec![p.clone(), p.clone()]),
                ("[P,-P]", vec![p.clone(), np.clone()]),
                ("[O,Q]", vec![o.clone(), q.clone()]),
                ("[P,O]", vec![p.clone(), o.clone()]),
                ("[P,-P,Q]", vec![p.clone(), np.clone(), q.clone()]),
                ("[P,O,Q]", vec![p.clone(), o.clone(), q.clone()]),
                ("[O,P,O,Q]", vec![o.clone(), p.clone(), o.clone(), q.clone()]),
                ("[P,-P,Q,Q]", vec![p.clone(), np.clone(), q.clone(), q.clone()]),
            ];
            let ga = self.tcx.mk_args(&[c.into()]);
            let mut fns: Vec<(String, DefId, bool, bool, u8)> = vec![]; // name, def, arg by ref, arg projective, result kind
            for (n, m, byref, pr, kind) in [
                ("ProjectivePoint", "batch_to_affine", true, true, 0u8),
                ("AffinePoint", "batch_to_projective", true, false, 0),
            ] {
                if let Ok(d) = self.method(n, m) {
                    fns.push((format!("{}::{}", n, m), d, byref, pr, kind))
                }
            }
            for n in ["affine_summation_best", "affine_summation_pairwise", "affine_summation_batch_inversion"] {
                let d = self.find_fn(n)?;
                fns.push((n.into(), d, false, false, 1));
            }
            for (fname, d, byref, pr, kind) in fns {
                for (ln, l) in &lists {
                    let key = format!("{} {} {}", cn, fname, ln);
                    let site = self.site(d);
                    let (kk, ss, nzz) = (key.clone(), site.clone(), nz.clone());
                    let (k, zp) = (&k, &zp);
                    self.unit(&key, &site, move |s| {
                        let mut vs = vec![];
                        for (i, x) in l.iter().enumerate() {
                            vs.push(if pr { s.proj_v(k, x, &zp[i])? } else { s.aff_v(k, x)? });
                        }
                        let arg = if byref { ptr_to(seq(vs)) } else { seq(vs) };
                        s.group_case(k, &kk, &ss, &nzz, d, ga, &[arg], &|s, f| {
                            if kind == 0 {
                                Some(l.clone())
                            } else {
                                Some(vec![s.sum_spec(k, l, f)])
                            }
                        })
                    });
                }
            }
            // several summations at once
            for n in ["affine_multisummation_best", "affine_multisummation_pairwise", "affine_multisummation_batch_inversion"] {
                let d = self.find_fn(n)?;
                let site = self.site(d);
                let multi: Vec<(&str, Vec<Vec<Pt>>)> = vec![
                    ("[]", vec![]),
                    ("[[P],[],[O,Q]]", vec![vec![p.clone()], vec![], vec![o.clone(), q.clone()]]),
                    ("[[P,P],[P,-P],[P,Q]]", vec![vec![p.clone(), p.clone()], vec![p.clone(), np.clone()], vec![p.clone(), q.clone()]]),
                    ("[[P,Q,O],[Q,Q]]", vec![vec![p.clone(), q.clone(), o.clone()], vec![q.clone(), q.clone()]]),
                ];
                for (ln, l) in &multi {
                    let key = format!("{} {} {}", cn, n, ln);
                    let (kk, ss, nzz) = (key.clone(), site.clone(), nz.clone());
                    let k = &k;
                    self.unit(&key, &site, move |s| {
                        let mut vs = vec![];
                        for x in l {
                            let mut w = vec![];
                            for y in x {
                                w.push(s.aff_v(k, y)?)
                            }
                            vs.push(seq(w));
                        }
                        s.group_case(k, &kk, &ss, &nzz, d, ga, &[seq(vs)], &|s, f| Some(l.iter().map(|x| s.sum_spec(k, x, f)).collect()))
                    });
                }
            }
            // validity test: exactly the curve equation (free coordinates, not on the curve)
            for (ty, nm) in [(k.aff, "AffinePoint"), (k.proj, "ProjectivePoint")] {
                let Ok(d) = self.method(nm, "is_valid") else { continue };
                let ga = self.tcx.mk_args(&[c.into()]);
                let site = self.site(d);
                let v = Pt { inf: false, x: Poly::atom(k.fid, name("fx")), y: Poly::atom(k.fid, name("fy")) };
                let eqn = v.y.mul(&v.y).sub(&v.x.mul(&v.x).mul(&v.x)).sub(&k.a.mul(&v.x)).sub(&k.b);
                for (sn, a) in [("free", &v), ("O", &o)] {
                    let key = format!("{} {} is_valid {}", cn, nm, sn);
                    let (kk, ss, nzz) = (key.clone(), site.clone(), nz.clone());
                    let (k, zp, eqn) = (&k, &zp, &eqn);
                    self.unit(&key, &site, move |s| {
                        let l = if ty == k.aff { s.aff_v(k, a)? } else { s.proj_v(k, a, &zp[0])? };
                        let ps = s.paths(64, |s| {
                            let r = s.call(d, ga, vec![ptr_to(l.clone())])?;
                            Ok(match r {
                                V::Int(i) => i == 1,
                                V::Sym(t, _) => s.it.decide(t, 2) == 1,
                                o => return unsup(o.show_d(2)),
                            })
                        })?;
                        let rule = "a point is accepted exactly when it is the identity or satisfies the curve equation";
                        let (mut n, mut yes) = (0, 0);
                        for p in ps {
                            let fx = s.facts(&p.conds, &nzz);
                            if !fx.feasible {
                                continue;
                            }
                            n += 1;
                            let got = p.r?;
                            yes += got as usize;
                            // the path's comparisons with zero, divided by powers of z
                            let strip = |q: &Poly| {
                                let mut q = q.normalised();
                                for at in &nzz {
                                    while !q.t.is_empty() && q.t.keys().all(|mo| mo.iter().any(|(x, e)| x == at && *e > 0)) {
                                        q = q.mul(&Poly::atom(q.fid, *at).inv());
                                    }
                                }
                                q
                            };
                            let same = |q: &Poly, r: &Poly| {
                                let (q, r) = (strip(q), strip(r));
                                let (Some((m1, c1)), Some((m2, c2))) = (q.t.iter().next(), r.t.iter().next()) else { return false };
                                m1 == m2 && q.mul(&Poly::constant(q.fid, c2.clone())).sub(&r.mul(&Poly::constant(q.fid, c1.clone()))).is_zero()
                            };
                            let mut on = None;
                            for (t, d, _) in &p.conds {
                                if let Term::App(op, ar) = term(*t) {
                                    if op == "is0" {
                                        if let Term::P(q) = term(ar[0]) {
                                            if same(&q, eqn) {
                                                on = Some(*d == 1)
                                            }
                                        }
                                    }
                                }
                            }
                            let ok = if a.inf { got } else { on == Some(got) };
                            s.check(&format!("{} path {}", kk, n), &ss, rule, ok, || format!("answers {} while the curve equation is {:?}", got, on));
                        }
                        s.check(&format!("{} outcomes", kk), &ss, rule, yes > 0 && (a.inf || yes < n), || format!("{} of {} paths accept", yes, n));
                        Ok(())
                    });
                }
            }
            // equality is equality of the points represented
            let eq = self.tcx.lang_items().eq_trait().ok_or(Stop::Unsupported("eq".into()))?;
            let eqm = *self.tcx.associated_item_def_ids(eq).iter().find(|d| self.tcx.item_name(**d).as_str() == "eq").unwrap();
            for (ty, nm) in [(k.aff, "AffinePoint"), (k.proj, "ProjectivePoint")] {
                let ga = self.tcx.mk_args(&[ty.into(), ty.into()]);
                let site = self.impl_site(eqm, ga);
                for (sn, a, b, want) in [
                    ("P,P", &p, &p, Some(true)),
                    ("P,-P", &p, &np, Some(false)),
                    ("O,P", &o, &p, Some(false)),
                    ("P,O", &p, &o, Some(false)),
                    ("O,O", &o, &o, Some(true)),
                    ("P,Q", &p, &q, None),
                ] {
                    let key = format!("{} {} equality {}", cn, nm, sn);
                    let (kk, ss, nzz) = (key.clone(), site.clone(), nz.clone());
                    let (k, zp) = (&k, &zp);
                    self.unit(&key, &site, move |s| {
                        let l = if ty == k.aff { s.aff_v(k, a)? } else { s.proj_v(k, a, &zp[0])? };
                        let r = if ty == k.aff { s.aff_v(k, b)? } else { s.proj_v(k, b, &zp[1])? };
                        let ps = s.paths(64, |s| {
                            let r = s.call(eqm, ga, vec![ptr_to(l.clone()), ptr_to(r.clone())])?;
                            Ok(match r {
                                V::Int(i) => i == 1,
                                V::Sym(t, _) => s.it.decide(t, 2) == 1,
                                o => return unsup(o.show_d(2)),
                            })
                        })?;
                        let rule = "two representations compare equal exactly when they represent the same point";
                        let mut n = 0;
                        for p in ps {
                            let fx = s.facts(&p.conds, &nzz);
                            if !fx.feasible {
                                continue;
                            }
                            n += 1;
                            let got = p.r?;
                            let same = {
                                let (a, b) = (s.pt_sub(a, &fx.m), s.pt_sub(b, &fx.m));
                                s.pt_eq(&a, &b, &fx.m)
                            };
                            let ok = match want {
                                Some(w) => got == w,
                                None => !got || same,
                            };
                            s.check(&format!("{} path {}", kk, n), &ss, rule, ok, || format!("compares {} although the points {}", got, if same { "are the same" } else { "differ" }));
                        }
                        Ok(())
                    });
                }
            }
            clear_rules();
        }
        Ok(())
    }
}
