//! Points as scalar combinations: a curve point is a linear form, with scalar-field coefficients, over
//! independent point atoms; group operations and multi-scalar multiplications act on the forms (that the
//! code of those operations implements the group law is decided separately, from their source).
//! A point value is the analysed struct plus one hidden field carrying the form.
use crate::base::*;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Pd<'tcx> {
    pub c: Ty<'tcx>,
    pub sf: FieldId,
    pub bf: FieldId,
    pub aff: Ty<'tcx>,
    pub proj: Ty<'tcx>,
}

fn point_kind<'tcx>(it: &Interp<'tcx>, t: Ty<'tcx>) -> Option<(Ty<'tcx>, bool)> {
    match t.kind() {
        ty::Adt(d, a) => match it.tcx.item_name(d.did()).as_str() {
            "AffinePoint" => Some((a.type_at(0), false)),
            "ProjectivePoint" => Some((a.type_at(0), true)),
            _ => None,
        },
        ty::Ref(_, t, _) => point_kind(it, *t),
        _ => None,
    }
}

impl<'tcx> Pd<'tcx> {
    fn key(&self, it: &mut Interp<'tcx>, p: &Poly) -> TermId {
        it.vkey(&V::F(p.clone()))
    }
    fn coords(&self, it: &mut Interp<'tcx>, t: Ty<'tcx>, p: &Poly) -> Vec<V<'tcx>> {
        let proj = t == self.proj;
        let k = self.key(it, p);
        let ty::Adt(d, a) = t.kind() else { unreachable!() };
        let mut f = vec![];
        for fd in &d.non_enum_variant().fields {
            let n = fd.name.to_string();
            let ft = it.field_type(fd, a);
            if it.field_ty(ft).is_some() {
                if p.is_zero() {
                    f.push(V::F(Poly::zero(self.bf)));
                } else {
                    let at = app(&format!("pt{}{}", if proj { "j" } else { "" }, n), vec![k]);
                    it.atom_fields.insert(at, self.bf);
                    f.push(V::F(Poly::atom(self.bf, at)));
                }
            } else {
                f.push(V::Int(p.is_zero() as u128));
            }
        }
        f
    }
    pub fn mk(&self, it: &mut Interp<'tcx>, t: Ty<'tcx>, p: &Poly) -> V<'tcx> {
        let mut f = self.coords(it, t, p);
        f.push(V::F(p.clone()));
        adt(t, 0, f)
    }
    pub fn aff(&self, it: &mut Interp<'tcx>, p: &Poly) -> V<'tcx> {
        self.mk(it, self.aff, p)
    }
    pub fn proj(&self, it: &mut Interp<'tcx>, p: &Poly) -> V<'tcx> {
        self.mk(it, self.proj, p)
    }
    /// the linear form of a point value
    pub fn of(&self, it: &mut Interp<'tcx>, v: &V<'tcx>) -> R<Poly> {
        let mut v = it.deref_all(v)?;
        if let V::Sym(..) = v {
            v = it.materialize(&v)?;
        }
        let V::Adt(a) = &v else { return unsup(format!("point {}", v.show_d(2))) };
        if a.ty != self.aff && a.ty != self.proj {
            return unsup(format!("a point of another curve: {}", a.ty));
        }
        let ty::Adt(d, _) = a.ty.kind() else { return unsup("point") };
        let n = d.non_enum_variant().fields.len();
        if a.f.len() > n {
            let p = a.f[n].poly()?;
            let want = self.coords(it, a.ty, &p);
            for (x, y) in a.f.iter().zip(&want) {
                if it.vkey(x) != it.vkey(y) {
                    return unsup("coordinates of a point were modified directly");
                }
            }
            return Ok(p);
        }
        let mut ks = vec![];
        let mut src: Option<TermId> = None;
        let mut same = true;
        for (fd, x) in d.non_enum_variant().fields.iter().zip(&a.f) {
            match x {
                V::F(p) => {
                    match p.as_atom().map(term) {
                        Some(Term::App(op, b)) if op == format!("pt{}{}", if a.ty == self.proj { "j" } else { "" }, fd.name) => {
                            if src.is_some() && src != Some(b[0]) {
                                same = false
                            }
                            src = Some(b[0]);
                        }
                        _ => same = false,
                    }
                    ks.push(it.vkey(x));
                }
                V::Int(1) => return Ok(Poly::zero(self.sf)),
                V::Int(_) => {}
                o => ks.push(it.vkey(o)),
            }
        }
        if let (true, Some(k)) = (same, src) {
            return Ok(match term(k) {
                Term::P(p) => p,
                _ => Poly::atom(self.sf, k),
            });
        }
        let at = app("point", ks);
        it.atom_fields.insert(at, self.sf);
        Ok(Poly::atom(self.sf, at))
    }
    fn list(&self, it: &mut Interp<'tcx>, v: &V<'tcx>) -> R<Vec<Poly>> {
        let mut out = vec![];
        for x in it.seq_items(v)?.iter() {
            out.push(self.of(it, x)?);
        }
        Ok(out)
    }
    fn scalars(&self, it: &mut Interp<'tcx>, v: &V<'tcx>) -> R<Vec<Poly>> {
        it.seq_items(v)?.iter().map(|x| x.poly()).collect()
    }
    /// bits of one element, in order: that element
    fn bits_key(it: &mut Interp<'tcx>, v: &V<'tcx>) -> R<TermId> {
        let s = it.seq_items(v)?;
        let mut src = None;
        let mut ok = !s.is_empty();
        for (i, b) in s.iter().enumerate() {
            match b {
                V::Sym(t, _) => match term(*t) {
                    Term::App(op, a) if op == "bit" && term(a[1]) == Term::Int(i as u128) && (src.is_none() || src == Some(a[0])) => src = Some(a[0]),
                    _ => ok = false,
                },
                _ => ok = false,
            }
        }
        if let (true, Some(x)) = (ok, src) {
            return Ok(app("low", vec![intern(Term::Int(s.len() as u128)), x]));
        }
        Ok(it.vkey(&V::Seq(s)))
    }
    /// the value of Halo's n on a bit string: a square, so that its root is a plain atom
    pub fn halo_n(&self, it: &mut Interp<'tcx>, bits: &V<'tcx>) -> R<Poly> {
        let k = Self::bits_key(it, bits)?;
        let at = app("n_root", vec![k]);
        it.atom_fields.insert(at, self.sf);
        let r = Poly::atom(self.sf, at);
        Ok(r.mul(&r))
    }
    fn msm(&self, it: &mut Interp<'tcx>, pre: &V<'tcx>, sc: &V<'tcx>) -> R<Poly> {
        let pre = it.deref_all(pre)?;
        let V::Adt(a) = &pre else { return unsup("msm precomputation") };
        let rows = a.f.iter().find(|x| matches!(x, V::Seq(_)));
        let Some(rows) = rows else { return unsup("msm precomputation has no powers") };
        let rows = it.seq_items(rows)?;
        let sc = self.scalars(it, sc)?;
        if rows.len() != sc.len() {
            return Err(Stop::Panic("msm lengths differ".into()));
        }
        let mut sum = Poly::zero(self.sf);
        for (r, s) in rows.iter().zip(&sc) {
            let p = it.seq_items(r)?;
            if p.is_empty() {
                return unsup("no powers for a generator");
            }
            sum = sum.add(&self.of(it, &p[0])?.mul(s));
        }
        Ok(sum)
    }
}

impl<'tcx> Ctx<'tcx> {
    pub fn pd(&mut self, c: Ty<'tcx>) -> R<Pd<'tcx>> {
        let k = self.curve_cx(c)?;
        let sf = self.scalar(c)?;
        Ok(Pd { c, sf: self.fid_of(sf)?, bf: k.fid, aff: k.aff, proj: k.proj })
    }
    /// install the point domain for curve c
    pub fn hook_points(&mut self, pd: Pd<'tcx>) -> R<()> {
        let zeta = match self.it.assoc_const_of(pd.c, "ZETA_SCALAR") {
            Ok(z) => Some(z.poly()?),
            Err(_) => None,
        };
        let mut on = |n: &str, f: Hook<'tcx>| {
            self.it.hooks.insert(n.into(), f);
        };
        // operators: only on this curve's points
        let is = move |it: &Interp<'tcx>, t: Ty<'tcx>| point_kind(it, t).map(|x| x.0) == Some(pd.c);
        let self_point = move |it: &mut Interp<'tcx>, i: &Instance<'tcx>| -> bool {
            i.args.types().next() == Some(pd.c) && {
                let d = i.def_id();
                let st = it.tcx.trait_impl_of_assoc(d).or_else(|| it.tcx.inherent_impl_of_assoc(d)).map(|im| it.tcx.type_of(im).instantiate_identity().skip_norm_wip());
                st.map(|t| matches!(it.head(t).as_str(), "AffinePoint" | "ProjectivePoint" | "CurveScalar")).unwrap_or(false)
            }
        };
        on(
            "Add::add",
            Rc::new(move |it, i, a, dt| {
                if !self_point(it, &i) {
                    return Ok(None);
                }
                let r = pd.of(it, &a[0])?.add(&pd.of(it, &a[1])?);
                Ok(Some(pd.mk(it, dt, &r)))
            }),
        );
        on(
            "Sub::sub",
            Rc::new(move |it, i, a, dt| {
                if !self_point(it, &i) {
                    return Ok(None);
                }
                let r = pd.of(it, &a[0])?.sub(&pd.of(it, &a[1])?);
                Ok(Some(pd.mk(it, dt, &r)))
            }),
        );
        for n in ["Neg::neg", "ProjectivePoint::neg", "AffinePoint::neg"] {
            on(
                n,
                Rc::new(move |it, i, a, dt| {
                    if !self_point(it, &i) {
                        return Ok(None);
                    }
                    let r = pd.of(it, &a[0])?.neg();
                    Ok(Some(pd.mk(it, dt, &r)))
                }),
            );
        }
        on(
            "Mul::mul",
            Rc::new(move |it, i, a, dt| {
                if !self_point(it, &i) || !is(it, dt) {
                    return Ok(None);
                }
                let s = it.deref_all(&a[0])?;
                let s = match &s {
                    V::F(p) => p.clone(),
                    o => o.field(0)?.poly()?,
                };
                let r = pd.of(it, &a[1])?.mul(&s);
                Ok(Some(pd.mk(it, dt, &r)))
            }),
        );
        for n in ["AffinePoint::double", "ProjectivePoint::double"] {
            on(
                n,
                Rc::new(move |it, i, a, dt| {
                    if !self_point(it, &i) {
                        return Ok(None);
                    }
                    let p = pd.of(it, &a[0])?;
                    Ok(Some(pd.mk(it, dt, &p.add(&p))))
                }),
            );
        }
        for n in ["AffinePoint::to_projective", "ProjectivePoint::to_affine"] {
            on(
                n,
                Rc::new(move |it, i, a, dt| {
                    if !self_point(it, &i) {
                        return Ok(None);
                    }
                    let p = pd.of(it, &a[0])?;
                    Ok(Some(pd.mk(it, dt, &p)))
                }),
            );
        }
        for n in ["AffinePoint::batch_to_projective", "ProjectivePoint::batch_to_affine"] {
            let to = if n.ends_with("affine") { pd.aff } else { pd.proj };
            on(
                n,
                Rc::new(move |it, i, a, _| {
                    if !self_point(it, &i) {
                        return Ok(None);
                    }
                    let ps = pd.list(it, &a[0])?;
                    let v = ps.iter().map(|p| pd.mk(it, to, p)).collect();
                    Ok(Some(seq(v)))
                }),
            );
        }
        if let Some(z) = zeta {
            on(
                "AffinePoint::endomorphism",
                Rc::new(move |it, i, a, dt| {
                    if !self_point(it, &i) {
                        return Ok(None);
                    }
                    let p = pd.of(it, &a[0])?.mul(&z);
                    Ok(Some(pd.mk(it, dt, &p)))
                }),
            );
        }
        for (n, neg) in [("PartialEq::eq", false), ("PartialEq::ne", true)] {
            on(
                n,
                Rc::new(move |it, i, a, _| {
                    let at = match it.concrete_point_ty(&a[0])? {
                        Some(t) => t,
                        None => return Ok(None),
                    };
                    let _ = &i;
                    if !is(it, at) {
                        return Ok(None);
                    }
                    let (x, y) = (pd.of(it, &a[0])?, pd.of(it, &a[1])?);
                    let r = it.field_eq(&x, &y);
                    Ok(Some(match (neg, r) {
                        (false, r) => r,
                        (true, V::Int(i)) => V::Int(1 - i),
                        (true, V::Sym(t, ty)) => V::Sym(not_term(t), ty),
                        (_, o) => o,
                    }))
                }),
            );
        }
        for n in ["AffinePoint::is_valid", "ProjectivePoint::is_valid"] {
            on(
                n,
                Rc::new(move |it, i, a, _| {
                    if !self_point(it, &i) {
                        return Ok(None);
                    }
                    let p = pd.of(it, &a[0])?;
                    let mut honest = true;
                    for at in p.atoms() {
                        if let Term::App(op, _) = term(at) {
                            if op == "point" {
                                honest = false
                            }
                        }
                    }
                    if honest {
                        return Ok(Some(V::Int(1)));
                    }
                    let k = pd.key(it, &p);
                    let t = app("valid", vec![k]);
                    if let Some(d) = it.assumed.get(&t) {
                        return Ok(Some(V::Int(*d as u128)));
                    }
                    Ok(Some(V::Sym(t, it.tcx.types.bool)))
                }),
            );
        }
        let mine = move |i: &Instance<'tcx>| i.args.types().next() == Some(pd.c);
        on(
            "curve_msm::msm_precompute",
            Rc::new(move |it, i, a, dt| {
                if !mine(&i) {
                    return Ok(None);
                }
                let ps = pd.list(it, &a[0])?;
                let rows: Vec<V<'tcx>> = ps.iter().map(|p| seq(vec![pd.aff(it, p)])).collect();
                let ty::Adt(d, ga) = dt.kind() else { return unsup("msm precomputation type") };
                let mut f = vec![];
                for fd in &d.non_enum_variant().fields {
                    let t = it.field_type(fd, ga);
                    if t.is_integral() {
                        f.push(a[1].clone());
                    } else {
                        f.push(seq(rows.clone()));
                    }
                }
                Ok(Some(adt(dt, 0, f)))
            }),
        );
        for n in ["curve_msm::msm_execute", "curve_msm::msm_execute_parallel"] {
            on(
                n,
                Rc::new(move |it, i, a, dt| {
                    if !mine(&i) {
                        return Ok(None);
                    }
                    let p = pd.msm(it, &a[0], &a[1])?;
                    Ok(Some(pd.mk(it, dt, &p)))
                }),
            );
        }
        for n in ["curve_summations::affine_summation_best", "curve_summations::affine_summation_pairwise", "curve_summations::affine_summation_batch_inversion"] {
            on(
                n,
                Rc::new(move |it, i, a, dt| {
                    if !mine(&i) {
                        return Ok(None);
                    }
                    let ps = pd.list(it, &a[0])?;
                    let s = ps.iter().fold(Poly::zero(pd.sf), |x, y| x.add(y));
                    Ok(Some(pd.mk(it, dt, &s)))
                }),
            );
        }
        for n in ["curve_summations::affine_multisummation_best", "curve_summations::affine_multisummation_pairwise", "curve_summations::affine_multisummation_batch_inversion"] {
            on(
                n,
                Rc::new(move |it, i, a, _| {
                    if !mine(&i) {
                        return Ok(None);
                    }
                    let mut out = vec![];
                    for r in it.seq_items(&a[0])?.iter() {
                        let ps = pd.list(it, r)?;
                        let s = ps.iter().fold(Poly::zero(pd.sf), |x, y| x.add(y));
                        out.push(pd.proj(it, &s));
                    }
                    Ok(Some(seq(out)))
                }),
            );
        }
        for n in ["hash_to_curve::blake_hash_usize_to_curve", "hash_to_curve::hash_usize_to_curve"] {
            let tag = if n.contains("blake") { "blake" } else { "rescue" };
            on(
                n,
                Rc::new(move |it, i, a, dt| {
                    if !mine(&i) {
                        return Ok(None);
                    }
                    let k = a.iter().map(|x| it.vkey(x)).collect();
                    let at = app(&format!("gen_{}", tag), k);
                    it.atom_fields.insert(at, pd.sf);
                    Ok(Some(pd.mk(it, dt, &Poly::atom(pd.sf, at))))
                }),
            );
        }
        Ok(())
    }
    /// additionally treat Halo's n and [n]P as uninterpreted squares
    pub fn hook_halo_n(&mut self, pd: Pd<'tcx>) {
        let mine = move |i: &Instance<'tcx>| i.args.types().next() == Some(pd.c);
        self.it.hooks.insert(
            "plonk_util::halo_n".into(),
            Rc::new(move |it, i, a, _| if mine(&i) { Ok(Some(V::F(pd.halo_n(it, &a[0])?))) } else { Ok(None) }),
        );
        self.it.hooks.insert(
            "plonk_util::halo_n_mul".into(),
            Rc::new(move |it, i, a, dt| {
                if !mine(&i) {
                    return Ok(None);
                }
                let n = pd.halo_n(it, &a[0])?;
                let p = pd.of(it, &a[1])?.mul(&n);
                Ok(Some(pd.mk(it, dt, &p)))
            }),
        );
        // the root of a monomial with even exponents
        self.it.opaque_sqrt = false;
        self.it.hooks.insert(
            "Field::square_root".into(),
            Rc::new(move |it, _, a, dt| {
                let x = it.deref_all(&a[0])?.poly()?;
                if x.t.len() == 1 {
                    let (m, c) = x.t.iter().next().unwrap();
                    if *c == num_bigint::BigUint::from(1u32) && m.iter().all(|y| y.1 % 2 == 0) {
                        let mut r = Poly::one(x.fid);
                        for (at, e) in m.iter() {
                            let b = Poly::atom(x.fid, *at);
                            let b = if *e < 0 { b.inv() } else { b };
                            r = r.mul(&b.pow((e.abs() / 2) as u64));
                        }
                        return Ok(Some(adt(dt, 1, vec![V::F(r)])));
                    }
                }
                if x.as_const().is_some() {
                    return Ok(None);
                }
                let k = it.vkey(&V::F(x));
                Ok(Some(V::Sym(app("sqrt", vec![k]), dt)))
            }),
        );
    }
}

impl<'tcx> Interp<'tcx> {
    pub fn concrete_point_ty(&mut self, v: &V<'tcx>) -> R<Option<Ty<'tcx>>> {
        let v = self.deref_all(v)?;
        Ok(match &v {
            V::Adt(a) => point_kind(self, a.ty).map(|_| a.ty),
            V::Sym(_, t) => point_kind(self, *t).map(|_| *t),
            _ => None,
        })
    }
}
