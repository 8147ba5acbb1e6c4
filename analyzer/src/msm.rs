//! Scalar and multi-scalar multiplication, and the commitments made with them.
use crate::base::*;
use crate::pdom::Pd;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::One;
use rustc_middle::ty::Ty;
use std::collections::BTreeSet;

/// the hooks of the point domain that stand for the code analysed here
const OPEN: &[&str] = &["Mul::mul", "curve_msm::msm_precompute", "curve_msm::msm_execute", "curve_msm::msm_execute_parallel", "plonk_util::halo_n", "plonk_util::halo_n_mul"];

impl<'tcx> Ctx<'tcx> {
    pub fn check_msm(&mut self) -> R<()> {
        let r = self.scoped(|s| s.check_msm_());
        self.it.const_set.clear();
        r
    }
    fn check_msm_(&mut self) -> R<()> {
        let base = self.it.hooks.clone();
        let site = {
            let d = self.find_fn("curve_msm::msm_execute_parallel")?;
            self.site(d)
        };
        let msite = {
            let d = self.method("ProjectivePoint", "mul_with_precomputation")?;
            self.site(d)
        };
        for (ci, c) in self.all_curves()?.into_iter().enumerate() {
            self.it.const_set.clear();
            self.it.hooks = base.clone();
            let pd = self.pd(c)?;
            self.hook_points(pd)?;
            for h in OPEN {
                self.it.hooks.remove(*h);
            }
            let n = self.it.head(c);
            let sf = self.scalar(c)?;
            let sfn = self.it.head(sf);
            let full_bits = self.it.assoc_const_of(sf, "BITS")?.usz()?;
            // every scalar of a short length, every window size
            let small: usize = if ci == 0 { 6 } else { 5 };
            for w in 1..=small + 1 {
                let key = format!("{} {} bits window {}", n, small, w);
                let s2 = site.clone();
                self.it.const_set.insert(("Field::BITS".into(), sfn.clone()), small as u128);
                self.unit(&key.clone(), &site, |s| {
                    for v in 0..1u64 << small {
                        s.msm_case(pd, sf, w, &[BigUint::from(v)], &[0], &format!("{} scalar {}", key, v), &s2)?;
                    }
                    let step = if w == 2 { 1 } else { 7 };
                    for v in (0..1u64 << (2 * small)).step_by(step) {
                        let (a, b) = (v & ((1 << small) - 1), v >> small);
                        s.msm_case(pd, sf, w, &[a.into(), b.into()], &[0, 1], &format!("{} scalars {} {}", key, a, b), &s2)?;
                    }
                    for v in 0..24u64 {
                        let x = |k: u64| BigUint::from((v * k + k * k) % (1 << small));
                        s.msm_case(pd, sf, w, &[x(1), x(3), x(5), x(11)], &[0, 1, 0, 2], &format!("{} four scalars {}", key, v), &s2)?;
                    }
                    Ok(())
                });
                self.it.const_set.clear();
            }
            // the full length: every single bit, and values with runs of ones
            let p = field_p(pd.sf);
            let one = BigUint::one();
            let mut vals: Vec<BigUint> = vec![];
            for i in 0..full_bits {
                vals.push(&one << i);
            }
            for i in (1..full_bits).step_by(9) {
                vals.push((&one << i) - &one);
            }
            vals.extend([&p - &one, &p - 2u32, (&p - &one) / 2u32, &p / 3u32]);
            vals.retain(|v| *v < p);
            for w in if ci == 0 { vec![1usize, 4, 5, 8, 11, 13] } else { vec![5, 11] } {
                let key = format!("{} full window {}", n, w);
                let s2 = site.clone();
                let stride = if w > 8 { 23 } else { 1 };
                let off = if w > 8 { 3 } else { 0 };
                self.unit(&key.clone(), &site, |s| {
                    for (i, v) in vals.iter().enumerate() {
                        if i % stride != off && i < full_bits {
                            continue;
                        }
                        s.msm_case(pd, sf, w, &[v.clone()], &[0], &format!("{} scalar {}", key, i), &s2)?;
                    }
                    s.msm_case(pd, sf, w, &vals[vals.len() - 3..], &[0, 1, 2], &format!("{} three scalars", key), &s2)?;
                    s.msm_case(pd, sf, w, &[], &[], &format!("{} nothing", key), &s2)?;
                    Ok(())
                });
            }
            for (i, chunk) in vals.chunks(64).enumerate() {
                let key = format!("{} multiplication {}", n, i);
                let s2 = msite.clone();
                self.unit(&key.clone(), &msite, |s| {
                    for (j, v) in chunk.iter().enumerate() {
                        s.mul_case(pd, sf, v, &format!("{} scalar {}", key, j), &s2)?;
                    }
                    Ok(())
                });
            }
            self.it.const_set.insert(("Field::BITS".into(), sfn.clone()), 8);
            let key = format!("{} multiplication by a byte", n);
            let s2 = msite.clone();
            self.unit(&key.clone(), &msite, |s| {
                for v in 0..256u64 {
                    s.mul_case(pd, sf, &v.into(), &format!("{} {}", key, v), &s2)?;
                }
                Ok(())
            });
            self.it.const_set.clear();
        }
        // Halo's multiplication
        let site = {
            let d = self.find_fn("plonk_util::halo_n_mul")?;
            self.site(d)
        };
        for (c, _) in self.curve_pairs()? {
            self.it.hooks = base.clone();
            let pd = self.pd(c)?;
            self.hook_points(pd)?;
            for h in OPEN {
                self.it.hooks.remove(*h);
            }
            let n = self.it.head(c);
            let zeta = self.it.assoc_const_of(c, "ZETA_SCALAR")?.poly()?;
            for len in [0usize, 2, 4, 6, 8] {
                let key = format!("{} halo_n {} bits", n, len);
                let (s2, z) = (site.clone(), zeta.clone());
                self.unit(&key.clone(), &site, |s| {
                    for v in 0..1u64 << len {
                        let bits: Vec<bool> = (0..len).map(|i| v >> i & 1 == 1).collect();
                        s.halo_case(pd, &bits, &z, &format!("{} {:b}", key, v), &s2)?;
                    }
                    Ok(())
                });
            }
            let bits: Vec<bool> = (0..128).map(|i| (i * i + i / 3) % 5 < 2).collect();
            let key = format!("{} halo_n 128 bits", n);
            let (s2, z) = (site.clone(), zeta.clone());
            self.unit(&key.clone(), &site, |s| s.halo_case(pd, &bits, &z, &key, &s2));
        }
        Ok(())
    }
    fn halo_case(&mut self, pd: Pd<'tcx>, bits: &[bool], zeta: &Poly, key: &str, site: &str) -> R<()> {
        let bv: Vec<V<'tcx>> = bits.iter().map(|b| V::Int(*b as u128)).collect();
        let (mut a, mut b) = (Poly::zero(pd.sf), Poly::zero(pd.sf));
        for ch in bits.chunks(2) {
            a = a.add(&a);
            b = b.add(&b);
            let s = if ch[0] { Poly::one(pd.sf) } else { Poly::one(pd.sf).neg() };
            if ch[1] {
                a = a.add(&s);
            } else {
                b = b.add(&s);
            }
        }
        let want = a.mul(zeta).add(&b);
        let r = self.call_f("plonk_util::halo_n", &[pd.c], vec![sref(bv.clone())])?.poly()?;
        self.check(&format!("{} value", key), site, "halo_n maps each pair of bits to plus or minus one or zeta", r == want, || format!("{} instead of {}", r.show(), want.show()));
        let p = Poly::atom(pd.sf, name("P"));
        let pv = pd.aff(&mut self.it, &p);
        let r = self.call_f("plonk_util::halo_n_mul", &[pd.c], vec![sref(bv), pv])?;
        let r = pd.of(&mut self.it, &r)?;
        self.check(&format!("{} multiple", key), site, "halo_n_mul multiplies by the value of halo_n", r.sub(&p.mul(&want)).is_zero(), || format!("{} instead of {}", r.show(), p.mul(&want).show()));
        Ok(())
    }
    /// all multi-scalar entry points on sum of scalars[i] * G_{gens[i]}
    fn msm_case(&mut self, pd: Pd<'tcx>, _sf: Ty<'tcx>, w: usize, scalars: &[BigUint], gens: &[usize], key: &str, site: &str) -> R<()> {
        self.it.reset();
        let g: Vec<Poly> = gens.iter().map(|i| Poly::atom(pd.sf, name(&format!("G{}", i)))).collect();
        let gp: Vec<V<'tcx>> = g.iter().map(|p| pd.proj(&mut self.it, p)).collect();
        let sv: Vec<Poly> = scalars.iter().map(|s| Poly::constant(pd.sf, s.clone())).collect();
        let want = g.iter().zip(&sv).fold(Poly::zero(pd.sf), |a, (g, s)| a.add(&g.mul(s)));
        let pre = self.call_f("curve_msm::msm_precompute", &[pd.c], vec![sref(gp.clone()), V::Int(w as u128)])?;
        for m in ["msm_execute", "msm_execute_parallel"] {
            let r = self.call_f(&format!("curve_msm::{}", m), &[pd.c], vec![ptr_to(pre.clone()), fref(&sv)])?;
            let r = pd.of(&mut self.it, &r)?;
            self.check(&format!("{} {}", key, m), site, "the sum of the generators' multiples", r.sub(&want).is_zero(), || format!("{} instead of {}", r.show(), want.show()));
        }
        if w <= 4 {
            let r = self.call_f("curve_msm::msm_parallel", &[pd.c], vec![fref(&sv), sref(gp), V::Int(w as u128)])?;
            let r = pd.of(&mut self.it, &r)?;
            self.check(&format!("{} msm_parallel", key), site, "the sum of the generators' multiples", r.sub(&want).is_zero(), || format!("{} instead of {}", r.show(), want.show()));
        }
        Ok(())
    }
    fn mul_case(&mut self, pd: Pd<'tcx>, _sf: Ty<'tcx>, v: &BigUint, key: &str, site: &str) -> R<()> {
        self.it.reset();
        let p = Poly::atom(pd.sf, name("P"));
        let s = Poly::constant(pd.sf, v.clone());
        let want = p.mul(&s);
        let pv = pd.proj(&mut self.it, &p);
        let pre = self.call_m("ProjectivePoint", "mul_precompute", &[pd.c], vec![ptr_to(pv.clone())])?;
        let r = self.call_m("ProjectivePoint", "mul_with_precomputation", &[pd.c], vec![ptr_to(pv.clone()), V::F(s.clone()), pre])?;
        let r = pd.of(&mut self.it, &r)?;
        self.check(&format!("{} mul_with_precomputation", key), site, "the point's multiple by the scalar", r.sub(&want).is_zero(), || format!("{} instead of {}", r.show(), want.show()));
        let d = self.trait_item("Curve", "convert")?;
        let ga = self.tcx.mk_args(&[pd.c.into()]);
        let cs = self.call(d, ga, vec![V::F(s)])?;
        let ct = match &cs {
            V::Adt(a) => a.ty,
            _ => return unsup("curve scalar"),
        };
        let Some(d) = self.tcx.lang_items().mul_trait().and_then(|t| self.tcx.associated_items(t).in_definition_order().find(|i| i.name().as_str() == "mul").map(|i| i.def_id)) else { return unsup("Mul::mul") };
        let ga = self.tcx.mk_args(&[ct.into(), pd.proj.into()]);
        let r = self.call(d, ga, vec![cs, pv])?;
        let r = pd.of(&mut self.it, &r)?;
        self.check(&format!("{} operator", key), site, "the point's multiple by the scalar", r.sub(&want).is_zero(), || format!("{} instead of {}", r.show(), want.show()));
        Ok(())
    }
    /// commitments to vectors and polynomials
    pub fn check_commit(&mut self) -> R<()> {
        self.scoped(|s| s.check_commit_())
    }
    fn check_commit_(&mut self) -> R<()> {
        let base = self.it.hooks.clone();
        let site = {
            let d = self.method("PolynomialCommitment", "coeffs_vec_to_commitments")?;
            self.site(d)
        };
        for c in self.all_curves()? {
            self.it.hooks = base.clone();
            let pd = self.pd(c)?;
            self.hook_points(pd)?;
            let n = self.it.head(c);
            let sf = self.scalar(c)?;
            for (np, len) in [(0usize, 2usize), (1, 1), (1, 4), (2, 2), (3, 4)] {
                for blind in [false, true] {
                    let key = format!("{} {} polynomials of {} {}", n, np, len, if blind { "blinded" } else { "plain" });
                    let s2 = site.clone();
                    self.unit(&key.clone(), &site, |s| s.commit_case(pd, sf, np, len, blind, &key, &s2));
                }
            }
        }
        Ok(())
    }
    fn commit_case(&mut self, pd: Pd<'tcx>, sf: Ty<'tcx>, np: usize, len: usize, blind: bool, key: &str, site: &str) -> R<()> {
        let c = pd.c;
        let g: Vec<Poly> = (0..len).map(|i| Poly::atom(pd.sf, name(&format!("G{}", i)))).collect();
        let gp: Vec<V<'tcx>> = g.iter().map(|p| pd.proj(&mut self.it, p)).collect();
        let h = Poly::atom(pd.sf, name("H"));
        let hv = pd.aff(&mut self.it, &h);
        let pre = self.call_f("curve_msm::msm_precompute", &[c], vec![sref(gp), V::Int(5)])?;
        let cs: Vec<Vec<Poly>> = (0..np).map(|j| self.atoms_named(pd.sf, &format!("c{}_", j), len)).collect();
        let dot = |c: &[Poly]| c.iter().zip(&g).fold(Poly::zero(pd.sf), |a, (x, g)| a.add(&x.mul(g)));
        if np > 0 {
            let r = self.call_f("plonk_util::pedersen_hash", &[c], vec![fref(&cs[0]), ptr_to(pre.clone())])?;
            let r = pd.of(&mut self.it, &r)?;
            self.check(&format!("{} pedersen_hash", key), site, "the hash is the combination of the generators", r.sub(&dot(&cs[0])).is_zero(), || r.show());
        }
        let pols = cs.iter().map(|p| self.polynomial(sf, p)).collect::<R<Vec<_>>>()?;
        let mut seen: BTreeSet<TermId> = BTreeSet::new();
        let b = V::Int(blind as u128);
        let mut ways: Vec<(&str, Vec<V<'tcx>>)> = vec![];
        let r = self.call_f("plonk_util::commit_polynomials", &[c], vec![sref(pols.clone()), ptr_to(pre.clone()), hv.clone(), b.clone()])?;
        ways.push(("commit_polynomials", self.it.seq_items(&r)?.to_vec()));
        let rows: Vec<V<'tcx>> = cs.iter().map(|p| fref(p)).collect();
        let r = self.call_m("PolynomialCommitment", "coeffs_vec_to_commitments", &[c], vec![sref(rows), ptr_to(pre.clone()), hv.clone(), b.clone()])?;
        ways.push(("coeffs_vec_to_commitments", self.it.seq_items(&r)?.to_vec()));
        let mut one = vec![];
        let mut two = vec![];
        for (p, pv) in cs.iter().zip(&pols) {
            one.push(self.call_m("PolynomialCommitment", "coeffs_to_commitment", &[c], vec![fref(p), ptr_to(pre.clone()), hv.clone(), b.clone()])?);
            let d = self.method("Polynomial", "commit")?;
            let ga = self.tcx.mk_args(&[sf.into(), c.into()]);
            two.push(self.call(d, ga, vec![ptr_to(pv.clone()), ptr_to(pre.clone()), hv.clone(), b.clone()])?);
        }
        // conversion of a mixed list keeps order and values
        let mut mixed = one.clone();
        if let Some(l) = ways[0].1.first() {
            mixed.insert(1, l.clone());
        }
        let mp = ptr_to(seq(mixed.clone()));
        self.call_m("PolynomialCommitment", "batch_to_affine", &[c], vec![mp.clone()])?;
        let after = self.it.seq_items(&mp)?.to_vec();
        let r = self.call_m("PolynomialCommitment", "commitments_to_affine_vec", &[c], vec![mp])?;
        let aff = self.it.seq_items(&r)?.to_vec();
        let mut ok = after.len() == mixed.len() && aff.len() == mixed.len();
        for ((x, y), z) in mixed.iter().zip(&after).zip(&aff) {
            let a = self.call_m("PolynomialCommitment", "to_affine", &[c], vec![ptr_to(x.clone())])?;
            let b = self.call_m("PolynomialCommitment", "to_affine", &[c], vec![ptr_to(y.clone())])?;
            let (a, b, z) = (pd.of(&mut self.it, &a)?, pd.of(&mut self.it, &b)?, pd.of(&mut self.it, z)?);
            let (rx, ry) = (self.get_field(x, "randomness")?.poly()?, self.get_field(y, "randomness")?.poly()?);
            ok &= a == b && a == z && rx == ry;
        }
        self.check(&format!("{} batch_to_affine", key), site, "converting commitments keeps their order, points and randomness", ok, || "a commitment changed".into());
        ways.push(("coeffs_to_commitment", one));
        ways.push(("commit", two));
        for (m, v) in ways {
            self.check(&format!("{} {} length", key, m), site, "one commitment for each polynomial", v.len() == np, || format!("{}", v.len()));
            for (j, (x, p)) in v.iter().zip(&cs).enumerate() {
                let a = self.call_m("PolynomialCommitment", "to_affine", &[c], vec![ptr_to(x.clone())])?;
                let a = pd.of(&mut self.it, &a)?;
                let r = self.get_field(x, "randomness")?.poly()?;
                let want = dot(p).add(&h.mul(&r));
                self.check(&format!("{} {} {} point", key, m, j), site, "the commitment is the combination of the generators plus randomness times the blinding point", a.sub(&want).is_zero(), || a.show());
                let fresh = match r.as_atom() {
                    Some(t) => blind && seen.insert(t),
                    None => !blind && r.is_zero(),
                };
                self.check(&format!("{} {} {} randomness", key, m, j), site, "randomness is fresh for every blinded commitment, and zero otherwise", fresh, || r.show());
            }
        }
        let p = Poly::atom(pd.sf, name("P"));
        let pv = pd.aff(&mut self.it, &p);
        let Some(d) = self.tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")).and_then(|t| self.tcx.associated_item_def_ids(t).first().copied()) else { return unsup("From::from") };
        let pct = {
            let d = self.find_adt("PolynomialCommitment")?;
            self.ty_of(d, &[c])
        };
        let ga = self.tcx.mk_args(&[pct.into(), pd.aff.into()]);
        let v = self.call(d, ga, vec![pv])?;
        let a = self.call_m("PolynomialCommitment", "to_affine", &[c], vec![ptr_to(v.clone())])?;
        let a = pd.of(&mut self.it, &a)?;
        let r = self.get_field(&v, "randomness")?.poly()?;
        self.check(&format!("{} from point", key), site, "a commitment made from a point is that point, without randomness", a == p && r.is_zero(), || a.show());
        Ok(())
    }
}
