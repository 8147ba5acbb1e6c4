//! Polynomial arithmetic, Fourier transforms and the small polynomial helpers of the protocol.
use crate::base::*;
use crate::poly::*;
use crate::proto::*;
use crate::val::*;
use rustc_middle::ty::Ty;
use std::collections::BTreeSet;

type Pv = Vec<Poly>;

fn trim(mut v: Pv) -> Pv {
    while v.last().map(|x| x.is_zero()) == Some(true) {
        v.pop();
    }
    v
}
fn pmul(fid: FieldId, a: &[Poly], b: &[Poly]) -> Pv {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Poly::zero(fid); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].add(&x.mul(y));
        }
    }
    r
}
fn padd(fid: FieldId, a: &[Poly], b: &[Poly]) -> Pv {
    (0..a.len().max(b.len())).map(|i| a.get(i).cloned().unwrap_or(Poly::zero(fid)).add(&b.get(i).cloned().unwrap_or(Poly::zero(fid)))).collect()
}
fn same(fid: FieldId, a: &[Poly], b: &[Poly]) -> bool {
    (0..a.len().max(b.len())).all(|i| a.get(i).cloned().unwrap_or(Poly::zero(fid)).sub(&b.get(i).cloned().unwrap_or(Poly::zero(fid))).is_zero())
}
fn pshow(a: &[Poly]) -> String {
    format!("[{}]", a.iter().map(|p| p.show()).collect::<Vec<_>>().join(", "))
}

impl<'tcx> Ctx<'tcx> {
    pub fn check_poly(&mut self) -> R<()> {
        self.scoped(|s| s.check_poly_())
    }
    pub fn coeffs_in(&mut self, f: Ty<'tcx>, p: &V<'tcx>) -> R<Pv> {
        let v = self.call_m("Polynomial", "coeffs", &[f], vec![ptr_to(p.clone())])?;
        self.polys_of(&v)
    }
    fn pm(&mut self, f: Ty<'tcx>, m: &str, a: Vec<V<'tcx>>) -> R<V<'tcx>> {
        self.call_m("Polynomial", m, &[f], a)
    }
    fn poly_eq(&mut self, f: Ty<'tcx>, a: V<'tcx>, b: V<'tcx>) -> R<bool> {
        let Some(t) = self.tcx.lang_items().eq_trait() else { return unsup("PartialEq") };
        let Some(d) = self.tcx.associated_item_def_ids(t).first().copied() else { return unsup("PartialEq::eq") };
        let pt = {
            let d = self.find_adt("Polynomial")?;
            self.ty_of(d, &[f])
        };
        let ga = self.tcx.mk_args(&[pt.into(), pt.into()]);
        Ok(self.call(d, ga, vec![a, b])?.int()? != 0)
    }
    /// coefficient lists of a length: every pattern of zero and arbitrary nonzero coefficients
    fn patterns(&mut self, fid: FieldId, n: &str, len: usize) -> Vec<(String, Pv)> {
        let at = self.atoms_named(fid, n, len);
        (0..1usize << len)
            .map(|m| ((0..len).map(|i| if m >> i & 1 == 1 { 'x' } else { '0' }).collect(), (0..len).map(|i| if m >> i & 1 == 1 { at[i].clone() } else { Poly::zero(fid) }).collect()))
            .collect()
    }
    /// a root of unity of order 2^log in the field, as its own constants define it
    pub fn unity(&mut self, f: Ty<'tcx>, fid: FieldId, log: usize) -> R<Poly> {
        let d = self.trait_item("Field", "primitive_root_of_unity")?;
        let a = self.tcx.mk_args(&[f.into()]);
        let r = self.call(d, a, vec![V::Int(log as u128)])?.poly()?;
        let one = Poly::one(fid);
        let ok = r.pow(1u64 << log) == one && (log == 0 || r.pow(1u64 << (log - 1)) == one.neg());
        let site = self.site(d);
        self.check(&format!("{} root of unity {}", f, log), &site, "primitive_root_of_unity(k) has order 2^k", ok, || r.show());
        Ok(r)
    }
    fn check_poly_(&mut self) -> R<()> {
        let fields = self.all_fields()?;
        for (fi, f) in fields.into_iter().enumerate() {
            let fid = match self.it.field_ty(f) {
                Some(x) => x,
                None => continue,
            };
            let full = fi == 0;
            let n = format!("{}", f);
            let n = n.rsplit("::").next().unwrap_or(&n).to_string();
            let site = {
                let d = self.find_fn("fft::fft_with_precomputation")?;
                self.site(d)
            };
            self.unit(&format!("{} fft", n), &site, |s| s.fft_cases(f, fid, &n, &site));
            let site = {
                let d = self.method("Polynomial", "mul")?;
                self.site(d)
            };
            for la in 0..=if full { 4 } else { 2 } {
                let (n2, s2) = (format!("{} length {}", n, la), site.clone());
                self.unit(&n2.clone(), &site, |s| s.basic_cases(f, fid, la, &n2, &s2));
            }
            for (la, lb) in if full { vec![(0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (5, 2), (5, 3), (5, 4), (6, 3), (6, 2), (7, 3), (8, 2), (9, 4)] } else { vec![(3, 2), (4, 3)] } {
                for m in ["polynomial_long_division", "polynomial_division"] {
                    let site = {
                        let d = self.method("Polynomial", m)?;
                        self.site(d)
                    };
                    let (n2, s2) = (format!("{} {} {}/{}", n, m, la, lb), site.clone());
                    let sparse = la > 6;
                    for (pa, a) in self.patterns(fid, "a", la) {
                        // long lists: all coefficients, none, or a single zero among them
                        if sparse && pa.matches('0').count() > 1 && pa.matches('x').count() > 2 {
                            continue;
                        }
                        for (pb, b) in self.patterns(fid, "b", lb) {
                            if !pb.contains('x') || (sparse && lb > 2 && !pb.ends_with('x')) {
                                continue;
                            }
                            let k = format!("{} {} by {}", n2, pa, pb);
                            self.unit(&k.clone(), &site, |s| s.division_case(f, fid, m, &a, &b, &k, &s2));
                        }
                    }
                    if full && la <= 5 && lb <= 3 {
                        // small integer coefficients, on which intermediate terms cancel
                        let vals = [-1i64, 0, 1];
                        let tot = 3usize.pow((la + lb) as u32);
                        let step = if tot > 300 { tot / 150 | 1 } else { 1 };
                        for code in (0..tot).step_by(step) {
                            let mut c = code;
                            let mut all = vec![];
                            for _ in 0..la + lb {
                                let v = vals[c % 3];
                                c /= 3;
                                all.push(if v < 0 { Poly::one(fid).neg() } else { Poly::int(fid, v as u64) });
                            }
                            let (a, b) = all.split_at(la);
                            if b.iter().all(|x| x.is_zero()) {
                                continue;
                            }
                            let k = format!("{} small {}", n2, code);
                            self.unit(&k.clone(), &site, |s| s.division_case(f, fid, m, a, b, &k, &s2));
                        }
                    }
                }
            }
            let site = {
                let d = self.method("Polynomial", "divide_by_z_h")?;
                self.site(d)
            };
            for zn in [1usize, 2, 4, 8] {
                for lq in 0..=if full { 5usize } else { 2 } {
                    for (pq, q) in self.patterns(fid, "q", lq) {
                        let k = format!("{} divide_by_z_h {} {}", n, zn, pq);
                        let s2 = site.clone();
                        self.unit(&k.clone(), &site, |s| {
                            let mut z = vec![Poly::zero(fid); zn + 1];
                            z[0] = Poly::one(fid).neg();
                            z[zn] = Poly::one(fid);
                            for pad in [0usize, 1, 7, 11] {
                            let mut a = pmul(fid, &q, &z);
                            a.resize(a.len() + pad, Poly::zero(fid));
                            let a = s.polynomial(f, &a)?;
                            let r = s.pm(f, "divide_by_z_h", vec![ptr_to(a), V::Int(zn as u128)])?;
                            let r = s.coeffs_in(f, &r)?;
                            s.check(&format!("{} padded {}", k, pad), &s2, "dividing a multiple of x^n - 1 gives the cofactor", same(fid, &r, &q), || pshow(&r));
                            }
                            Ok(())
                        });
                    }
                }
            }
            let site = {
                let d = self.find_fn("plonk_util::halo_g")?;
                self.site(d)
            };
            self.unit(&format!("{} helpers", n), &site, |s| s.helper_cases(f, fid, &n, &site));
        }
        Ok(())
    }
    fn fft_cases(&mut self, f: Ty<'tcx>, fid: FieldId, n: &str, site: &str) -> R<()> {
        for len in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16] {
            let log = len.next_power_of_two().trailing_zeros() as usize;
            let size = 1usize << log;
            let w = self.unity(f, fid, log)?;
            let c = self.atoms_named(fid, "c", len);
            let pre = self.call_f("fft::fft_precompute", &[f], vec![V::Int(len as u128)])?;
            let m = self.call_m("FftPrecomputation", "size", &[f], vec![ptr_to(pre.clone())])?.int()?;
            self.check(&format!("{} precompute size {}", n, len), site, "a precomputation is for the next power of two", m as usize == size, || format!("{}", m));
            let want: Pv = (0..size).map(|i| horner(&c, &w.pow(i as u64))).collect();
            for (nm, r) in [
                ("fft_with_precomputation", self.call_f("fft::fft_with_precomputation", &[f], vec![fref(&c), ptr_to(pre.clone())])?),
                ("fft", self.call_f("fft::fft", &[f], vec![fref(&c)])?),
            ] {
                let r = self.polys_of(&r)?;
                self.check(&format!("{} {} {}", n, nm, len), site, "the transform evaluates the polynomial at the powers of the root of unity, in order", r.len() == size && same(fid, &r, &want), || pshow(&r));
            }
            let p = self.polynomial(f, &c)?;
            let r = self.pm(f, "eval_domain", vec![ptr_to(p), ptr_to(pre.clone())])?;
            let r = self.polys_of(&r)?;
            self.check(&format!("{} eval_domain {}", n, len), site, "eval_domain evaluates the polynomial on the whole domain", r.len() == size && same(fid, &r, &want), || pshow(&r));
            if size <= 8 {
                let v = self.atoms_named(fid, "v", size);
                let ni = Poly::int(fid, size as u64).inv();
                let want: Pv = (0..size).map(|i| horner(&v, &w.inv().pow(i as u64)).mul(&ni)).collect();
                let r = self.call_f("fft::ifft_with_precomputation_power_of_2", &[f], vec![fref(&v), ptr_to(pre.clone())])?;
                let r = self.polys_of(&r)?;
                self.check(&format!("{} ifft {}", n, size), site, "the inverse transform interpolates the values", r.len() == size && same(fid, &r, &want), || pshow(&r));
                let r = self.pm(f, "from_evaluations", vec![fref(&v), ptr_to(pre.clone())])?;
                let r = self.coeffs_in(f, &r)?;
                self.check(&format!("{} from_evaluations {}", n, size), site, "from_evaluations interpolates the values", same(fid, &r, &want), || pshow(&r));
            }
        }
        // a short polynomial on a larger domain
        for (len, log) in [(1usize, 2usize), (2, 3), (3, 3), (4, 3)] {
            let w = self.unity(f, fid, log)?;
            let pre = self.call_f("fft::fft_precompute", &[f], vec![V::Int(1 << log)])?;
            for (pat, c) in self.patterns(fid, "c", len) {
                let p = self.polynomial(f, &c)?;
                let r = self.pm(f, "eval_domain", vec![ptr_to(p), ptr_to(pre.clone())])?;
                let r = self.polys_of(&r)?;
                let want: Pv = (0..1u64 << log).map(|i| horner(&c, &w.pow(i))).collect();
                self.check(&format!("{} eval_domain {} on {}", n, pat, 1 << log), site, "eval_domain evaluates the polynomial on the whole domain", r.len() == want.len() && same(fid, &r, &want), || pshow(&r));
            }
        }
        Ok(())
    }
    fn basic_cases(&mut self, f: Ty<'tcx>, fid: FieldId, la: usize, n: &str, site: &str) -> R<()> {
        let x = Poly::atom(fid, name("x"));
        for (pa, a) in self.patterns(fid, "a", la) {
            let k = format!("{} {}", n, pa);
            let av = self.polynomial(f, &a)?;
            let p = || ptr_to(av.clone());
            let t = trim(a.clone());
            let b = |s: &mut Self, m: &str| s.pm(f, m, vec![ptr_to(av.clone())]);
            let v = b(self, "len")?.int()? as usize;
            self.check(&format!("{} len", k), site, "len is the number of coefficients", v == la, || format!("{}", v));
            let v = b(self, "is_zero")?.int()? != 0;
            self.check(&format!("{} is_zero", k), site, "is_zero tells whether all coefficients are zero", v == t.is_empty(), || format!("{}", v));
            let v = b(self, "is_empty")?.int()? != 0;
            self.check(&format!("{} is_empty", k), site, "is_empty tells whether there is no coefficient", v == (la == 0), || format!("{}", v));
            if !t.is_empty() {
                let v = b(self, "degree")?.int()? as usize;
                self.check(&format!("{} degree", k), site, "the degree is the index of the last nonzero coefficient", v + 1 == t.len(), || format!("{}", v));
            }
            let v = b(self, "lead")?.poly()?;
            self.check(&format!("{} lead", k), site, "the leading coefficient is the last nonzero one, or zero", v == t.last().cloned().unwrap_or(Poly::zero(fid)), || v.show());
            let v = self.pm(f, "eval", vec![p(), V::F(x.clone())])?.poly()?;
            self.check(&format!("{} eval", k), site, "eval is the value of the polynomial", v.sub(&horner(&a, &x)).is_zero(), || v.show());
            let xs: Pv = (0..la).map(|i| Poly::atom(fid, name(&format!("xp{}", i)))).collect();
            let v = self.pm(f, "eval_from_power", vec![p(), fref(&xs)])?.poly()?;
            let w = a.iter().zip(&xs).fold(Poly::zero(fid), |s, (c, y)| s.add(&c.mul(y)));
            self.check(&format!("{} eval_from_power", k), site, "eval_from_power combines the coefficients with the given powers", v.sub(&w).is_zero(), || v.show());
            let q = p();
            self.pm(f, "trim", vec![q.clone()])?;
            let v = self.it.deref_all(&q)?;
            let v = self.coeffs_in(f, &v)?;
            self.check(&format!("{} trim", k), site, "trim removes exactly the leading zeros", v == t, || pshow(&v));
            for m in [t.len(), la, la + 3] {
                let v = self.pm(f, "padded", vec![p(), V::Int(m as u128)])?;
                let v = self.coeffs_in(f, &v)?;
                self.check(&format!("{} padded {}", k, m), site, "padding extends by zeros to the given length", v.len() == m && same(fid, &v, &t), || pshow(&v));
            }
            for lb in 0..=3 {
                for (pb, c) in self.patterns(fid, "b", lb) {
                    let bv = self.polynomial(f, &c)?;
                    // the same coefficients under another name: equal exactly if the patterns are
                    let c2: Pv = c.iter().enumerate().map(|(i, y)| if y.is_zero() { y.clone() } else { Poly::atom(fid, name(&format!("a{}", i))) }).collect();
                    let cv = self.polynomial(f, &c2)?;
                    let v = self.poly_eq(f, p(), ptr_to(cv))?;
                    self.check(&format!("{} == {}", k, pb), site, "polynomials are equal exactly if their coefficients are, up to leading zeros", v == same(fid, &a, &c2), || format!("{}", v));
                    let v = self.pm(f, "add", vec![p(), ptr_to(bv.clone())])?;
                    let v = self.coeffs_in(f, &v)?;
                    self.check(&format!("{} add {}", k, pb), site, "addition adds coefficients", same(fid, &v, &padd(fid, &a, &c)), || pshow(&v));
                    let v = self.pm(f, "mul", vec![p(), ptr_to(bv.clone())])?;
                    let v = self.coeffs_in(f, &v)?;
                    self.check(&format!("{} mul {}", k, pb), site, "multiplication convolves coefficients", same(fid, &v, &pmul(fid, &a, &c)), || pshow(&v));
                }
            }
        }
        Ok(())
    }
    fn division_case(&mut self, f: Ty<'tcx>, fid: FieldId, m: &str, a: &[Poly], b: &[Poly], k: &str, site: &str) -> R<()> {
        let av = self.polynomial(f, a)?;
        let bv = self.polynomial(f, b)?;
        let r = self.pm(f, m, vec![ptr_to(av), ptr_to(bv)])?;
        let q = r.field(0)?;
        let r = r.field(1)?;
        let (q, r) = (self.coeffs_in(f, &q)?, self.coeffs_in(f, &r)?);
        let back = padd(fid, &pmul(fid, &q, b), &r);
        let (db, dr) = (trim(b.to_vec()).len(), trim(r.clone()).len());
        let ok = same(fid, &back, a);
        self.check(&format!("{} identity", k), site, "the dividend is quotient times divisor plus remainder", ok, || format!("quotient {} remainder {}", pshow(&q), pshow(&r)));
        self.check(&format!("{} remainder", k), site, "the remainder has a smaller degree than the divisor", dr < db, || format!("remainder {}", pshow(&r)));
        Ok(())
    }
    fn helper_cases(&mut self, f: Ty<'tcx>, fid: FieldId, n: &str, site: &str) -> R<()> {
        let one = Poly::one(fid);
        let x = Poly::atom(fid, name("x"));
        let al = Poly::atom(fid, name("alpha"));
        for len in 0..=5usize {
            let c = self.atoms_named(fid, "c", len);
            let want = horner(&c, &x);
            for m in ["eval_poly", "reduce_with_powers"] {
                let r = self.call_f(&format!("plonk_util::{}", m), &[f], vec![fref(&c), V::F(x.clone())])?.poly()?;
                self.check(&format!("{} {} {}", n, m, len), site, "the terms are combined with increasing powers", r.sub(&want).is_zero(), || r.show());
            }
            let r = self.call_f("plonk_util::powers", &[f], vec![V::F(x.clone()), V::Int(len as u128)])?;
            let r = self.polys_of(&r)?;
            let ok = r.len() == len && r.iter().enumerate().all(|(i, p)| *p == x.pow(i as u64));
            self.check(&format!("{} powers {}", n, len), site, "powers lists x^0, x^1, ...", ok, || pshow(&r));
            // folding
            if len <= 4 {
                let us = self.atoms_named(fid, "u", len);
                let want = spec_halo_g(&x, &us);
                let r = self.call_f("plonk_util::halo_g", &[f], vec![V::F(x.clone()), fref(&us)])?.poly()?;
                self.check(&format!("{} halo_g {}", n, len), site, "halo_g is the product of u_i^-1 + u_i x^(2^(k-i))", r.sub(&want).is_zero(), || r.show());
                let s = self.call_f("plonk_util::halo_s", &[f], vec![fref(&us)])?;
                let s = self.polys_of(&s)?;
                let v = horner(&s, &x);
                self.check(&format!("{} halo_s {}", n, len), site, "halo_s lists the coefficients of halo_g", s.len() == 1 << len && v.sub(&want).is_zero(), || pshow(&s));
            }
        }
        for log in 0..4u32 {
            let m = 1usize << log;
            let r = self.call_f("plonk_util::eval_zero_poly", &[f], vec![V::Int(m as u128), V::F(x.clone())])?.poly()?;
            self.check(&format!("{} eval_zero_poly {}", n, m), site, "the zero polynomial is x^n - 1", r.sub(&x.pow(m as u64).sub(&one)).is_zero(), || r.show());
            let w = self.unity(f, fid, log as usize)?;
            for i in 0..m {
                let r = self.call_f("plonk_util::eval_l_1", &[f], vec![V::Int(m as u128), V::F(w.pow(i as u64))])?.poly()?;
                let want = if i == 0 { one.clone() } else { Poly::zero(fid) };
                self.check(&format!("{} eval_l_1 {} at {}", n, m, i), site, "L_1 is one at 1 and zero at the other roots of unity", r == want, || r.show());
            }
            let r = self.call_f("plonk_util::eval_l_1", &[f], vec![V::Int(m as u128), V::F(x.clone())])?.poly()?;
            let lhs = r.mul(&Poly::int(fid, m as u64)).mul(&x.sub(&one));
            self.check(&format!("{} eval_l_1 {}", n, m), site, "n (x - 1) L_1(x) = x^n - 1", lhs.sub(&x.pow(m as u64).sub(&one)).is_zero(), || r.show());
        }
        for (np, deg) in [(1usize, 2usize), (2, 2), (3, 4)] {
            let ps: Vec<Pv> = (0..np).map(|j| self.atoms_named(fid, &format!("p{}_", j), deg)).collect();
            let vs = ps.iter().map(|p| self.polynomial(f, p)).collect::<R<Vec<_>>>()?;
            let r = self.call_f("plonk_util::scale_polynomials", &[f], vec![seq(vs.clone()), V::F(al.clone()), V::Int(deg as u128)])?;
            let r = self.coeffs_in(f, &r)?;
            let want: Pv = (0..deg).map(|i| horner(&ps.iter().map(|p| p[i].clone()).collect::<Vec<_>>(), &al)).collect();
            self.check(&format!("{} scale_polynomials {} {}", n, np, deg), site, "polynomials are combined with increasing powers", same(fid, &r, &want), || pshow(&r));
            let xp: Pv = (0..deg).map(|i| x.pow(i as u64)).collect();
            let r = self.call_f("plonk_util::eval_polys", &[f], vec![sref(vs), fref(&xp)])?;
            let r = self.polys_of(&r)?;
            let ok = r.len() == np && r.iter().zip(&ps).all(|(r, p)| r.sub(&horner(p, &x)).is_zero());
            self.check(&format!("{} eval_polys {} {}", n, np, deg), site, "each polynomial is evaluated at the point", ok, || pshow(&r));
        }
        let _ = BTreeSet::<u8>::new();
        Ok(())
    }
}
