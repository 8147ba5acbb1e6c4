//! Range checks, big integers and foreign field elements in circuits: what the gates force, over the integers.
use crate::base::*;
use crate::circ::*;
use crate::gadgets::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rustc_middle::ty::{self, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

const LIMB: usize = 86;

/// a target with the number of dibits it was asserted to have
type Ranges<'tcx> = Rc<RefCell<Vec<(V<'tcx>, usize)>>>;
/// a comparison: both operands' limbs, and lt/eq/gt
type Cmps<'tcx> = Rc<RefCell<Vec<(Vec<V<'tcx>>, Vec<V<'tcx>>, Vec<V<'tcx>>)>>>;

fn big(x: u64) -> BigUint {
    BigUint::from(x)
}
fn w2(e: usize) -> BigUint {
    BigUint::one() << e
}
fn digits(v: &BigUint, n: usize) -> Vec<BigUint> {
    (0..n).map(|i| (v >> (i * LIMB)) % w2(LIMB)).collect()
}
fn limbs_of(max: &BigUint) -> usize {
    (max.bits() as usize + LIMB - 1) / LIMB
}
/// d (d - 1) (d - 2) (d - 3)
fn quartic(d: &Poly) -> Poly {
    (0..4).fold(Poly::one(d.fid), |a, j| a.mul(&d.sub(&Poly::int(d.fid, j))))
}
fn weighted(fid: FieldId, ds: &[Poly], base: &BigUint) -> Poly {
    let mut r = Poly::zero(fid);
    for d in ds.iter().rev() {
        r = r.scale(base).add(d);
    }
    r
}
/// the polynomial with coefficients taken from (-p/2, p/2), in another field; and bounds of its two signs given the
/// bounds of the atoms
fn lift(p: &Poly, to: FieldId, bound: &dyn Fn(TermId) -> Option<BigUint>) -> Option<(Poly, BigUint, BigUint)> {
    let m = field_p(p.fid);
    let half = &m >> 1usize;
    let mut r = Poly::zero(to);
    let (mut hi, mut lo) = (BigUint::zero(), BigUint::zero());
    'term: for (mono, c) in p.t.iter() {
        let neg = c > &half;
        let a = if neg { &m - c } else { c.clone() };
        let mut b = a.clone();
        let mut q = Poly::constant(to, a);
        for &(x, e) in mono.iter() {
            if e < 0 {
                return None;
            }
            let v = bound(x)?;
            if v.is_zero() {
                continue 'term;
            }
            for _ in 0..e {
                b *= &v;
                q = q.mul(&Poly::atom(to, x));
            }
        }
        if neg {
            lo += b;
            r = r.sub(&q);
        } else {
            hi += b;
            r = r.add(&q);
        }
    }
    Some((r, hi, lo))
}
type Mono = Rc<Vec<(TermId, i32)>>;
/// linear span of polynomials, by elimination on monomials
pub struct Span {
    rows: Vec<(Mono, Poly)>,
}
impl Span {
    pub fn new(eqs: &[Poly]) -> Self {
        let mut s = Span { rows: vec![] };
        for e in eqs {
            let e = s.reduce(e);
            let Some((m, c)) = e.t.iter().next().map(|(m, c)| (m.clone(), c.clone())) else { continue };
            let pm = field_p(e.fid);
            let ci = c.modpow(&(&pm - 2u32), &pm);
            let e = e.scale(&ci);
            for (_, r) in s.rows.iter_mut() {
                if let Some(k) = r.t.get(&m).cloned() {
                    *r = r.sub(&e.scale(&k));
                }
            }
            s.rows.push((m, e));
        }
        s
    }
    fn reduce(&self, p: &Poly) -> Poly {
        let mut p = p.clone();
        for (m, r) in &self.rows {
            if let Some(c) = p.t.get(m).cloned() {
                p = p.sub(&r.scale(&c));
            }
        }
        p
    }
    pub fn has(&self, p: &Poly) -> bool {
        self.reduce(p).is_zero_const()
    }
}
/// true if the goal is a linear combination of the equations
pub fn in_span(goal: &Poly, eqs: &[Poly]) -> bool {
    Span::new(eqs).has(goal)
}

impl<'tcx> Ctx<'tcx> {
    fn bigval(&mut self, x: &BigUint) -> R<V<'tcx>> {
        let d = self.find_adt("BigIntTarget")?;
        let f = self.tcx.adt_def(d).non_enum_variant().fields.iter().find(|f| f.name.as_str() == "max");
        let Some(f) = f else { return unsup("BigIntTarget has no max") };
        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
        Ok(self.it.big_val(x, t))
    }
    fn bigtarget(&mut self, g: &Gad<'tcx>, limbs: Vec<V<'tcx>>, max: &BigUint) -> R<V<'tcx>> {
        let d = self.find_adt("BigIntTarget")?;
        let sf = self.scalar(g.c)?;
        let t = self.ty_of(d, &[sf]);
        let m = self.bigval(max)?;
        let mut f = vec![V::Uninit; 2];
        f[self.fidx(t, "limbs")?] = seq(limbs);
        f[self.fidx(t, "max")?] = m;
        Ok(adt(t, 0, f))
    }
    fn big_parts(&mut self, v: &V<'tcx>) -> R<(Vec<V<'tcx>>, BigUint)> {
        let v = self.it.deref_all(v)?;
        let l = self.get_field(&v, "limbs")?;
        let m = self.get_field(&v, "max")?;
        let ls = self.it.seq_items(&l)?.to_vec();
        match self.it.big_of(&m)? {
            Some(b) => Ok((ls, b)),
            None => unsup("symbolic bound"),
        }
    }
    fn foreign(&mut self, g: &Gad<'tcx>, ff: Ty<'tcx>, v: V<'tcx>) -> R<V<'tcx>> {
        let d = self.find_adt("ForeignFieldTarget")?;
        let sf = self.scalar(g.c)?;
        let t = self.ty_of(d, &[sf, ff]);
        let n = self.tcx.adt_def(d).non_enum_variant().fields.len();
        let i = self.fidx(t, "value")?;
        let mut f = vec![];
        for (k, fd) in self.tcx.adt_def(d).non_enum_variant().fields.iter().enumerate() {
            if k == i {
                f.push(v.clone());
            } else {
                let ty::Adt(_, a) = t.kind() else { return unsup("foreign field type") };
                let ft = self.it.field_type(fd, a);
                f.push(adt(ft, 0, vec![]));
            }
        }
        if f.len() != n {
            return unsup("foreign field target");
        }
        Ok(adt(t, 0, f))
    }
    fn hook_ranges(&mut self) -> R<Ranges<'tcx>> {
        let rec: Ranges = Rc::new(RefCell::new(vec![]));
        let r2 = rec.clone();
        self.method("CircuitBuilder", "assert_dibit_length")?;
        self.it.hooks.insert(
            "CircuitBuilder::assert_dibit_length".into(),
            Rc::new(move |it, _, a, _| {
                let t = it.deref_all(&a[1])?;
                r2.borrow_mut().push((t, a[2].usz()?));
                Ok(Some(it.unit()))
            }),
        );
        Ok(rec)
    }
    fn hook_cmp(&mut self, g: &Gad<'tcx>) -> R<Cmps<'tcx>> {
        let rec: Cmps = Rc::new(RefCell::new(vec![]));
        let r2 = rec.clone();
        self.method("CircuitBuilder", "bigint_cmp")?;
        let avt = self.method("CircuitBuilder", "add_virtual_target")?;
        let ca = self.tcx.mk_args(&[g.c.into()]);
        let tt = self.ret_ty(avt, ca);
        let me: *mut Self = self;
        self.it.hooks.insert(
            "CircuitBuilder::bigint_cmp".into(),
            Rc::new(move |it, _, a, dt| {
                // the context outlives the hooks
                let s = unsafe { &mut *me };
                let x = s.big_parts(&a[1])?.0;
                let y = s.big_parts(&a[2])?.0;
                let mut f = vec![V::Uninit; 3];
                let mut o = vec![];
                for n in ["lt", "eq", "gt"] {
                    let t = it.call_def(avt, ca, vec![a[0].clone()], tt, false)?;
                    o.push(t.clone());
                    f[s.fidx(dt, n)?] = t;
                }
                r2.borrow_mut().push((x, y, o));
                Ok(Some(adt(dt, 0, f)))
            }),
        );
        Ok(rec)
    }
    /// decompositions: (element, bits, dibits)
    fn hook_split(&mut self, g: &Gad<'tcx>) -> R<Rc<RefCell<Vec<(V<'tcx>, Vec<V<'tcx>>, Vec<V<'tcx>>)>>>> {
        let rec = Rc::new(RefCell::new(vec![]));
        let r2 = rec.clone();
        self.method("CircuitBuilder", "split_binary_and_base_4")?;
        let avt = self.method("CircuitBuilder", "add_virtual_target")?;
        let ca = self.tcx.mk_args(&[g.c.into()]);
        let tt = self.ret_ty(avt, ca);
        self.it.hooks.insert(
            "CircuitBuilder::split_binary_and_base_4".into(),
            Rc::new(move |it, _, a, dt| {
                let x = it.deref_all(&a[1])?;
                let (nb, nd) = (a[2].usz()?, a[3].usz()?);
                let mut t = vec![];
                for _ in 0..nb + nd {
                    t.push(it.call_def(avt, ca, vec![a[0].clone()], tt, false)?);
                }
                r2.borrow_mut().push((x, t[..nb].to_vec(), t[nb..].to_vec()));
                Ok(Some(adt(dt, 0, vec![seq(t[..nb].to_vec()), seq(t[nb..].to_vec())])))
            }),
        );
        Ok(rec)
    }
    fn hooked(&mut self, key: &str, site: &str, mut f: impl FnMut(&mut Self) -> R<()>) {
        self.unit(key, site, |s| {
            let saved = s.it.hooks.clone();
            let r = f(s);
            s.it.hooks = saved;
            r
        });
    }
    pub fn check_bigint(&mut self) -> R<()> {
        self.it.big_on = true;
        for (c, inner) in self.curve_pairs()? {
            let g = self.gad(c, inner)?;
            self.range_checks(&g)?;
            self.big_arith(&g)?;
            self.big_cmp(&g)?;
            self.big_complete(&g)?;
            self.witness_access(&g)?;
        }
        self.it.big_on = false;
        Ok(())
    }
    fn range_checks(&mut self, g: &Gad<'tcx>) -> R<()> {
        let fid = g.fid;
        let four = big(4);
        // x is the weighted sum of its dibits, all of which are below 4, and nothing else is asked of them
        let (d, a, site) = self.gadget_fn(g, "assert_dibit_length")?;
        for n in [1usize, 2, 4, 5, 6, 7, 8, 13, 14, 15, 21, 43, 49] {
            let key = format!("assert_dibit_length<{}> {}", g.cn, n);
            let (k2, s2) = (key.clone(), site.clone());
            self.hooked(&key, &site, |s| {
                let b = s.new_builder(g.c)?;
                let rec = s.hook_split(g)?;
                let x = s.target(&b, g.c)?;
                s.call(d, a, vec![b.clone(), x.clone(), V::Int(n as u128)])?;
                let rec = rec.borrow().clone();
                if rec.len() != 1 || !rec[0].1.is_empty() {
                    return unsup("the range check does not use one base-4 decomposition");
                }
                let kx = s.key(&x)?;
                let kr = s.key(&rec[0].0)?;
                s.check(&format!("{} decomposes", k2), &s2, "the checked element is the one decomposed", kx == kr && rec[0].2.len() == n, || "another element is decomposed, or into another number of dibits".into());
                let mut known = vec![];
                let mut ds = vec![];
                for (i, t) in rec[0].2.iter().enumerate() {
                    let p = Poly::atom(fid, name(&format!("d{}", i)));
                    known.push((t.clone(), p.clone()));
                    ds.push(p);
                }
                let want = weighted(fid, &ds, &four);
                let mut cc = s.circ(&b, g.c, g.inner)?;
                let sol = s.solve(&mut cc, &known)?;
                let v = sol.val.get(&cc.find(kx)).cloned();
                s.check(&format!("{} sum", k2), &s2, "the element is forced to be the sum of its dibits weighted by powers of 4", v.as_ref().map(|v| v.sub(&want).is_zero()) == Some(true), || match v {
                    Some(v) => format!("forced to {} instead", v.show_d(2)),
                    None => "the element is not determined by its dibits".into(),
                });
                for (i, x) in ds.iter().enumerate() {
                    let q = quartic(x);
                    let ok = sol.asserts.iter().any(|y| proportional(&y.2, &q));
                    s.check(&format!("{} dibit {}", k2, i), &s2, "each dibit is constrained to 0, 1, 2, 3", ok, || "a dibit is not range-checked".into());
                }
                for y in &sol.asserts {
                    let ok = ds.iter().any(|x| proportional(&y.2, &quartic(x)));
                    s.check(&format!("{} only", k2), &s2, "nothing else is asked of the dibits", ok, || format!("{} = 0 is required", y.2.show_d(2)));
                }
                // the honest assignment
                known.push((x.clone(), want.clone()));
                let w = s.witness(&mut cc, &known)?;
                s.check(&format!("{} generators agree", k2), &s2, "no two generators set the same wire class to different values", w.conflicts.is_empty(), || w.conflicts[0].clone());
                s.check(&format!("{} generators run", k2), &s2, "every generator's dependencies become available", w.stuck.is_empty(), || format!("stuck: {:?}", w.stuck));
                let bad: Vec<_> = s.violated(&mut cc, &w)?.into_iter().filter(|y| !ds.iter().any(|x| proportional(&y.2, &quartic(x)))).collect();
                s.check(&format!("{} satisfiable", k2), &s2, "the generated witness satisfies every gate constraint when the dibits are in range", bad.is_empty(), || format!("row {} constraint {} is {}", bad[0].0, bad[0].1, bad[0].2.show_d(2)));
                Ok(())
            });
        }
        let (d, a, site) = self.gadget_fn(g, "assert_all_base_4")?;
        for n in 0..10usize {
            let key = format!("assert_all_base_4<{}> {}", g.cn, n);
            let (k2, s2) = (key.clone(), site.clone());
            self.hooked(&key, &site, |s| {
                let b = s.new_builder(g.c)?;
                let ts = s.targets(&b, g.c, n)?;
                s.call(d, a, vec![b.clone(), sref(ts.clone())])?;
                let ds: Vec<Poly> = (0..n).map(|i| Poly::atom(fid, name(&format!("d{}", i)))).collect();
                let known: Vec<_> = ts.iter().cloned().zip(ds.iter().cloned()).collect();
                let mut cc = s.circ(&b, g.c, g.inner)?;
                let sol = s.solve(&mut cc, &known)?;
                for (i, x) in ds.iter().enumerate() {
                    let q = quartic(x);
                    let ok = sol.asserts.iter().any(|y| proportional(&y.2, &q));
                    s.check(&format!("{} limb {}", k2, i), &s2, "each limb is constrained to 0, 1, 2, 3", ok, || "a limb is not range-checked".into());
                }
                for y in &sol.asserts {
                    let ok = ds.iter().any(|x| proportional(&y.2, &quartic(x)));
                    s.check(&format!("{} only", k2), &s2, "nothing else is asked of the limbs", ok, || format!("{} = 0 is required", y.2.show_d(2)));
                }
                let w = s.witness(&mut cc, &known)?;
                s.check(&format!("{} generators run", k2), &s2, "every generator's dependencies become available without conflicts", w.stuck.is_empty() && w.conflicts.is_empty(), || format!("stuck: {:?}; {:?}", w.stuck, w.conflicts));
                let bad: Vec<_> = s.violated(&mut cc, &w)?.into_iter().filter(|y| !ds.iter().any(|x| proportional(&y.2, &quartic(x)))).collect();
                s.check(&format!("{} satisfiable", k2), &s2, "the generated witness satisfies every gate constraint when the limbs are in range", bad.is_empty(), || format!("row {} constraint {} is {}", bad[0].0, bad[0].1, bad[0].2.show_d(2)));
                Ok(())
            });
        }
        // the even square root below 2^254
        let (d, a, site) = self.gadget_fn(g, "deterministic_square_root")?;
        let key = format!("deterministic_square_root<{}>", g.cn);
        let (k2, s2) = (key.clone(), site.clone());
        self.hooked(&key, &site, |s| {
            let b = s.new_builder(g.c)?;
            let rec = s.hook_split(g)?;
            let x = s.target(&b, g.c)?;
            let r = s.call(d, a, vec![b.clone(), x.clone()])?;
            let rec = rec.borrow().clone();
            if rec.len() != 1 {
                return unsup("the square root does not use one decomposition");
            }
            let (kx, kr, ks) = (s.key(&x)?, s.key(&r)?, s.key(&rec[0].0)?);
            s.check(&format!("{} decomposes", k2), &s2, "the root is the element decomposed", kr == ks, || "another element is decomposed".into());
            let mut known = vec![];
            let mut asserted = vec![];
            let mut all = Poly::zero(fid);
            let mut wt = BigUint::one();
            let mut bound = BigUint::zero();
            let mut first = None;
            for (i, t) in rec[0].1.iter().chain(&rec[0].2).enumerate() {
                let p = Poly::atom(fid, name(&format!("d{}", i)));
                known.push((t.clone(), p.clone()));
                let bit = i < rec[0].1.len();
                all = all.add(&p.scale(&wt));
                if first.is_none() {
                    first = Some((p.clone(), bit));
                } else {
                    bound += &wt * big(if bit { 1 } else { 3 });
                    asserted.push(if bit { p.mul(&p).sub(&p) } else { quartic(&p) });
                }
                wt = wt * big(if bit { 2 } else { 4 });
            }
            let Some((b0, true)) = first else { return unsup("the decomposition has no parity bit") };
            let mut cc = s.circ(&b, g.c, g.inner)?;
            let sol = s.solve(&mut cc, &known)?;
            let even = all.sub(&b0);
            let rest = |p: &Poly| -> Poly {
                let mut m = HashMap::new();
                m.insert(b0.as_atom().unwrap(), Poly::zero(fid));
                p.subst(&m)
            };
            let v = sol.val.get(&cc.find(kr)).map(|v| rest(v));
            s.check(&format!("{} sum", k2), &s2, "the root is forced to be the weighted sum of its limbs, of which the parity bit is zero", v.as_ref().map(|v| v.sub(&even).is_zero()) == Some(true), || match v {
                Some(v) => format!("forced to {} instead", v.show_d(2)),
                None => "the root is not determined by its limbs".into(),
            });
            let v = sol.val.get(&cc.find(kx)).map(|v| rest(v));
            s.check(&format!("{} square", k2), &s2, "the square of the root is the input", v.as_ref().map(|v| v.sub(&even.mul(&even)).is_zero()) == Some(true), || "the input is not forced to be the square of the root".into());
            // the parity bit is a wire class of its own or that of the constant zero
            let zero = sol.asserts.iter().any(|y| proportional(&y.2, &b0));
            s.check(&format!("{} even", k2), &s2, "the parity bit is forced to zero", zero, || "an odd root is accepted".into());
            for (i, q) in asserted.iter().enumerate() {
                let ok = sol.asserts.iter().any(|y| proportional(&rest(&y.2), q));
                s.check(&format!("{} limb {}", k2, i + 1), &s2, "each limb is range-checked", ok, || "a limb is not range-checked".into());
            }
            s.check(&format!("{} unique", k2), &s2, "the limbs represent integers smaller than the modulus only, so that one of the two roots is accepted", bound < field_p(fid), || "values above the modulus can be represented".into());
            for y in &sol.asserts {
                let q = rest(&y.2);
                let ok = proportional(&y.2, &b0) || q.is_zero() || asserted.iter().any(|x| proportional(&q, x));
                s.check(&format!("{} only", k2), &s2, "nothing else is asked of the limbs", ok, || format!("{} = 0 is required", y.2.show_d(2)));
            }
            Ok(())
        });
        let pm = field_p(fid);
        for (label, v) in [("0", big(0)), ("2", big(2)), ("6", big(6)), ("2^254-2", w2(254) - 2u32), ("2^200+2^64*3+8", w2(200) + w2(64) * 3u32 + 8u32)] {
            if v >= pm {
                continue;
            }
            let sq = (&v * &v) % &pm;
            let saved = self.it.hooks.clone();
            let v2 = v.clone();
            let os = std::mem::replace(&mut self.it.opaque_sqrt, false);
            // the odd root, if there are two: the generator has to choose the even one
            self.it.hooks.insert(
                "Field::square_root".into(),
                Rc::new(move |_, _, _, dt| Ok(Some(adt(dt, 1, vec![V::F(Poly::constant(fid, v2.clone()).neg())])))),
            );
            self.gadget_case(
                g,
                "deterministic_square_root",
                &format!(" of the square of {}", label),
                &site,
                &[In::V(Poly::constant(fid, sq))],
                &[],
                &|s, b, t| Ok(vec![s.call(d, a, vec![b.clone(), t[0].clone()])?]),
                &|_| Exp { outs: vec![Poly::constant(fid, v.clone())], asserts: vec![], unsat: false, free: true },
            );
            self.it.hooks = saved;
            self.it.opaque_sqrt = os;
        }
        // whole range checks on values: those in range have a satisfying witness, others not from the generators
        let (d, a, site) = self.gadget_fn(g, "assert_dibit_length")?;
        for (n, v, ok) in [
            (1usize, big(3), true),
            (1, big(4), false),
            (5, w2(10) - 1u32, true),
            (5, w2(10), false),
            (7, big(9), true),
            (7, w2(14), false),
            (43, w2(86) - 1u32, true),
            (43, w2(64) * 5u32 + 6u32, true),
            (43, w2(86), false),
            (49, w2(98) - 2u32, true),
            (49, &pm - 1u32, false),
        ] {
            let key = format!("assert_dibit_length<{}> of {} dibits: {}", g.cn, n, v);
            let (k2, s2) = (key.clone(), site.clone());
            self.unit(&key, &site, |s| {
                let b = s.new_builder(g.c)?;
                let x = s.target(&b, g.c)?;
                s.call(d, a, vec![b.clone(), x.clone(), V::Int(n as u128)])?;
                let mut cc = s.circ(&b, g.c, g.inner)?;
                let w = s.witness(&mut cc, &[(x, Poly::constant(fid, v.clone()))])?;
                let good = w.conflicts.is_empty() && w.stuck.is_empty() && s.violated(&mut cc, &w)?.is_empty();
                s.check(&k2, &s2, "a value passes the range check exactly if it is in range", good == ok, || format!("the generated witness is {}", if good { "accepted" } else { "rejected" }));
                Ok(())
            });
        }
        Ok(())
    }
    /// a range-checked big integer
    fn big_input(&mut self, g: &Gad<'tcx>, b: &V<'tcx>, max: &BigUint) -> R<V<'tcx>> {
        let d = self.method("CircuitBuilder", "add_virtual_bigint_target")?;
        let a = self.args_for(d, g.c, g.inner, &[]);
        let m = self.bigval(max)?;
        self.call(d, a, vec![b.clone(), ptr_to(m), V::Int(1)])
    }
    fn big_arith(&mut self, g: &Gad<'tcx>) -> R<()> {
        let fid = g.fid;
        let pm = field_p(fid);
        let wide = register_field("integers", w2(4253) - 1u32);
        // limbs of a validated integer
        let (_, _, site) = self.gadget_fn(g, "add_virtual_bigint_target")?;
        for (label, max) in [("0", big(0)), ("1", big(1)), ("200", big(200)), ("2^86-1", w2(86) - 1u32), ("2^86", w2(86)), ("2^100", w2(100)), ("p-1", &pm - 1u32), ("2^258-1", w2(258) - 1u32)] {
            let key = format!("add_virtual_bigint_target<{}> up to {}", g.cn, label);
            let (k2, s2) = (key.clone(), site.clone());
            let max = max.clone();
            self.hooked(&key, &site, |s| {
                let b = s.new_builder(g.c)?;
                let sp = s.hook_split(g)?;
                let v = s.big_input(g, &b, &max)?;
                let (ls, m) = s.big_parts(&v)?;
                s.check(&format!("{} bound", k2), &s2, "the declared bound is the given one", m == max, || format!("{} instead of {}", m, max));
                s.check(&format!("{} limbs", k2), &s2, "there are as many limbs as the bound needs", ls.len() == limbs_of(&max), || format!("{}", ls.len()));
                let mut known = vec![];
                let mut nm = HashMap::new();
                for (k, r) in sp.borrow().iter().enumerate() {
                    for (i, t) in r.2.iter().enumerate() {
                        let at = name(&format!("d{}.{}", k, i));
                        nm.insert(at, ());
                        known.push((t.clone(), Poly::atom(fid, at)));
                    }
                }
                let mut cc = s.circ(&b, g.c, g.inner)?;
                let sol = s.solve(&mut cc, &known)?;
                for (i, l) in ls.iter().enumerate() {
                    let kl = s.key(l)?;
                    let v = sol.val.get(&cc.find(kl)).cloned();
                    // the limb is a combination of atoms that are constrained to 0..3
                    let top = v.as_ref().and_then(|v| {
                        lift(v, wide, &|x| {
                            let q = quartic(&Poly::atom(fid, x));
                            if sol.asserts.iter().any(|y| proportional(&y.2, &q)) { Some(big(3)) } else { None }
                        })
                    });
                    let need = (&max >> (i * LIMB)).min(w2(LIMB) - 1u32);
                    let ok = matches!(&top, Some((_, hi, lo)) if lo.is_zero() && *hi < w2(LIMB) && *hi >= need);
                    s.check(&format!("{} limb {}", k2, i), &s2, "a validated limb is constrained to its range: below 2^86, and every value under the bound is allowed", ok, || match top {
                        Some((_, hi, lo)) => format!("constrained to [-{}, {}]", lo, hi),
                        None => "the limb is not range-checked".into(),
                    });
                }
                Ok(())
            });
        }
        // constants
        let (d, a, site) = self.gadget_fn(g, "constant_bigint")?;
        for (label, v) in [("0", big(0)), ("1", big(1)), ("2^86-1", w2(86) - 1u32), ("2^86", w2(86)), ("2^172+5", w2(172) + 5u32), ("p-1", &pm - 1u32)] {
            let v2 = v.clone();
            let (v3, st) = (v.clone(), site.clone());
            let cn = g.cn.clone();
            self.gadget_case(
                g,
                "constant_bigint",
                &format!(" {}", label),
                &site,
                &[],
                &[],
                &|s, b, _| {
                    let x = s.bigval(&v3)?;
                    let r = s.call(d, a, vec![b.clone(), ptr_to(x)])?;
                    let (l, m) = s.big_parts(&r)?;
                    s.check(&format!("constant_bigint<{}> {} bound", cn, v3), &st, "the declared bound is at least the value", m >= v3, || format!("{}", m));
                    Ok(l)
                },
                &move |_| outs(digits(&v2, limbs_of(&v2)).into_iter().map(|x| Poly::constant(fid, x)).collect()),
            );
        }
        // arithmetic
        let o = &pm - 1u32;
        let pairs: Vec<(BigUint, BigUint)> = vec![
            (w2(86) - 1u32, w2(86) - 1u32),
            (big(1), big(1)),
            (o.clone(), o.clone()),
            (o.clone(), big(1)),
            (big(3), o.clone()),
            (w2(86), w2(86)),
            (w2(100), w2(172) - 1u32),
            (w2(258) - 1u32, w2(258) - 1u32),
            (big(0), o.clone()),
            (o.clone(), big(0)),
            (big(0), big(0)),
        ];
        for (mx, my) in &pairs {
            self.arith_case(g, wide, "bigint_mul", &[mx.clone(), my.clone()], None)?;
            self.arith_case(g, wide, "bigint_add", &[mx.clone(), my.clone()], None)?;
            if !my.is_zero() {
                for m in ["bigint_div_rem", "bigint_div", "bigint_rem"] {
                    self.arith_case(g, wide, m, &[mx.clone(), my.clone()], None)?;
                }
            }
        }
        self.arith_case(g, wide, "bigint_div_rem", &[&o * &o, o.clone()], None)?;
        for l in [vec![o.clone()], vec![o.clone(), big(1), w2(86)], vec![o.clone(), o.clone(), o.clone(), o.clone()], vec![big(0), w2(90), big(0)], vec![w2(86) - 1u32, w2(86) - 1u32, w2(172) - 1u32, big(7), o.clone()]] {
            self.arith_case(g, wide, "bigint_add_many", &l, None)?;
        }
        // elements of other fields
        let mut ffs = vec![];
        for (c, _) in self.curve_pairs()? {
            let f = self.scalar(c)?;
            if !ffs.contains(&f) {
                ffs.push(f);
            }
        }
        for ff in ffs {
            let f2 = self.fid_of(ff)?;
            let n = field_p(f2);
            let top = &n - 1u32;
            self.arith_case(g, wide, "foreign_field_add", &[top.clone(), top.clone()], Some(ff))?;
            self.arith_case(g, wide, "foreign_field_mul", &[top.clone(), top.clone()], Some(ff))?;
            self.arith_case(g, wide, "foreign_field_add_many", &[top.clone(), top.clone(), top.clone(), top.clone()], Some(ff))?;
            self.arith_case(g, wide, "foreign_field_add_many", &[top.clone()], Some(ff))?;
            let d = self.method("CircuitBuilder", "constant_foreign_field")?;
            let a = self.args_for(d, g.c, g.inner, &[ff]);
            let site = self.site(d);
            for v in [big(0), big(1), w2(86) + 7u32, top.clone()] {
                let v2 = v.clone();
                self.gadget_case(
                    g,
                    "constant_foreign_field",
                    &format!("<{}> {}", field_name(f2), v),
                    &site,
                    &[],
                    &[],
                    &|s, b, _| {
                        let r = s.call(d, a, vec![b.clone(), V::F(Poly::constant(f2, v.clone()))])?;
                        let r = s.get_field(&r, "value")?;
                        Ok(s.big_parts(&r)?.0)
                    },
                    &move |_| outs(digits(&v2, limbs_of(&v2)).into_iter().map(|x| Poly::constant(fid, x)).collect()),
                );
            }
        }
        // equality
        let (d, a, site) = self.gadget_fn(g, "copy_bigint")?;
        for (nx, ny) in [(1usize, 1usize), (3, 3), (2, 3), (3, 1), (0, 2), (2, 0)] {
            let at = |k: usize| ["x0", "x1", "x2", "y0", "y1", "y2"][k];
            let ins: Vec<In> = (0..nx).map(|i| In::S(at(i))).chain((0..ny).map(|i| In::S(at(3 + i)))).collect();
            self.gadget_case(
                g,
                "copy_bigint",
                &format!(" of {} and {} limbs", nx, ny),
                &site,
                &ins,
                &[],
                &|s, b, t| {
                    let (mx, my) = (w2(LIMB * nx) - 1u32, w2(LIMB * ny) - 1u32);
                    let x = s.bigtarget(g, t[..nx].to_vec(), &mx)?;
                    let y = s.bigtarget(g, t[nx..].to_vec(), &my)?;
                    s.call(d, a, vec![b.clone(), ptr_to(x), ptr_to(y)])?;
                    Ok(vec![])
                },
                &|p| {
                    let mut v = vec![];
                    for i in 0..nx.max(ny) {
                        let l = if i < nx { p[i].clone() } else { Poly::zero(fid) };
                        let r = if i < ny { p[nx + i].clone() } else { Poly::zero(fid) };
                        v.push(l.sub(&r));
                    }
                    asserts(v)
                },
            );
        }
        Ok(())
    }
    fn arith_case(&mut self, g: &Gad<'tcx>, wide: FieldId, m: &str, maxs: &[BigUint], ff: Option<Ty<'tcx>>) -> R<()> {
        let fid = g.fid;
        let d = self.method("CircuitBuilder", m)?;
        let a = self.args_for(d, g.c, g.inner, &ff.into_iter().collect::<Vec<_>>());
        let site = self.site(d);
        let lab: Vec<String> = maxs.iter().map(|x| if x.bits() < 20 { x.to_string() } else { format!("{:x}", x) }).collect();
        let key = format!("{}<{}{}> up to {}", m, g.cn, ff.map(|f| format!(", {}", f)).unwrap_or_default(), lab.join(", "));
        let (k2, s2) = (key.clone(), site.clone());
        let maxs = maxs.to_vec();
        let m = m.to_string();
        self.hooked(&key, &site, |s| {
            let b = s.new_builder(g.c)?;
            let rec = s.hook_ranges()?;
            let cmps = s.hook_cmp(g)?;
            let mut ins = vec![];
            for x in &maxs {
                ins.push(s.big_input(g, &b, x)?);
            }
            let mut args = vec![b.clone()];
            let mut given = vec![];
            for x in &ins {
                given.push(match ff {
                    Some(f) => s.foreign(g, f, x.clone())?,
                    None => x.clone(),
                });
            }
            if m.ends_with("_many") {
                args.push(sref(given));
            } else {
                args.extend(given.into_iter().map(ptr_to));
            }
            let r = match s.call(d, a, args) {
                Err(Stop::Panic(e)) => {
                    s.check(&format!("{} total", k2), &s2, "the gadget is defined for operands of every size", false, || format!("panics: {}", e));
                    return Ok(());
                }
                r => r?,
            };
            let rv: Vec<V<'tcx>> = match ff {
                Some(_) => vec![s.get_field(&r, "value")?],
                None if m == "bigint_div_rem" => vec![r.field(0)?, r.field(1)?],
                None => vec![r.clone()],
            };
            // range-checked classes
            let mut cc = s.circ(&b, g.c, g.inner)?;
            let mut bits: BTreeMap<TermId, BigUint> = BTreeMap::new();
            let mut atom_of: HashMap<TermId, TermId> = HashMap::new();
            let mut known = vec![];
            for (t, n) in rec.borrow().iter() {
                let k = s.key(t)?;
                let cl = cc.find(k);
                let at = name(&format!("r{}", show(cl)));
                let hi = w2(2 * n) - 1u32;
                if !atom_of.contains_key(&cl) {
                    known.push((t.clone(), Poly::atom(fid, at)));
                    atom_of.insert(cl, at);
                }
                let e = bits.entry(at).or_insert(hi.clone());
                if hi < *e {
                    *e = hi;
                }
            }
            if bits.is_empty() && maxs.iter().any(|x| !x.is_zero()) {
                return unsup("no range check is reached");
            }
            let sol = s.solve(&mut cc, &known)?;
            // those copied to zero
            for (_, _, p) in &sol.asserts {
                if let (1, Some((m, _))) = (p.t.len(), p.t.iter().next()) {
                    if m.len() == 1 {
                        bits.insert(m[0].0, BigUint::zero());
                    }
                }
            }
            let bound = |x: TermId| bits.get(&x).cloned();
            let pm = field_p(fid);
            let to = match ff {
                Some(f) => s.fid_of(f)?,
                None => wide,
            };
            let mut eqs = vec![];
            let mut wraps = vec![];
            for (_, _, p) in &sol.asserts {
                match lift(p, to, &bound) {
                    Some((q, hi, lo)) if hi < pm && lo < pm => eqs.push(q),
                    Some((_, hi, lo)) => wraps.push(format!("both sides can exceed the modulus ({} and {} bits): {}", hi.bits(), lo.bits(), p.show_d(4))),
                    None => {}
                }
            }
            let limbs = |s: &mut Self, v: &V<'tcx>| -> R<(Vec<Option<Poly>>, BigUint, Vec<TermId>)> {
                let (l, m) = s.big_parts(v)?;
                let mut o = vec![];
                let mut ks = vec![];
                for t in &l {
                    let k = s.key(t)?;
                    ks.push(cc.find(k));
                    o.push(sol.val.get(&cc.find(k)).cloned());
                }
                Ok((o, m, ks))
            };
            let value = |ls: &[Option<Poly>]| -> Option<(Poly, BigUint)> {
                let mut r = Poly::zero(to);
                let mut wt = BigUint::one();
                let mut h = BigUint::zero();
                for l in ls {
                    let (q, hi, lo) = lift(l.as_ref()?, to, &bound)?;
                    if !lo.is_zero() {
                        return None;
                    }
                    h += hi * &wt;
                    r = r.add(&q.scale(&wt));
                    wt = wt << LIMB;
                }
                Some((r, h))
            };
            let mut iv = vec![];
            let mut ik = vec![];
            for (i, x) in ins.iter().enumerate() {
                let (l, _, k) = limbs(s, x)?;
                for (j, y) in l.iter().enumerate() {
                    let need = (&maxs[i] >> (j * LIMB)).min(w2(LIMB) - 1u32);
                    let hi = y.as_ref().and_then(|y| y.as_atom()).and_then(|a| bound(a));
                    s.check(&format!("{} operand {}.{}", k2, i, j), &s2, "limbs of a validated operand are range-checked, and not more tightly than its bound", matches!(&hi, Some(h) if *h >= need && *h < w2(LIMB)), || format!("{:?}", hi));
                }
                let Some((v, _)) = value(&l) else { return Ok(()) };
                iv.push(v);
                ik.push(k);
            }
            let mut ov = vec![];
            let mut ok_ = vec![];
            let mut omax = vec![];
            for (i, x) in rv.iter().enumerate() {
                let (l, m, k) = limbs(s, x)?;
                for (j, y) in l.iter().enumerate() {
                    let hi = y.as_ref().and_then(|y| lift(y, to, &bound));
                    let good = matches!(&hi, Some((_, h, lo)) if lo.is_zero() && *h < w2(LIMB));
                    s.check(&format!("{} result {}.{}", k2, i, j), &s2, "each limb of the result is constrained to less than 2^86", good, || match &hi {
                        Some((_, h, lo)) => format!("in [-{}, {}]", lo, h),
                        None => "not range-checked".into(),
                    });
                }
                match value(&l) {
                    Some((v, _)) => ov.push(v),
                    None => return Ok(()),
                }
                ok_.push(k);
                omax.push(m);
            }
            let one = Poly::one(to);
            let zero = Poly::zero(to);
            let sum = iv.iter().fold(zero.clone(), |x, y| x.add(y));
            let prod = iv.iter().fold(one.clone(), |x, y| x.mul(y));
            let span = Span::new(&eqs);
            // the exact bound of each result
            let (goal, need): (Option<Poly>, Vec<BigUint>) = match m.as_str() {
                "bigint_mul" => (Some(ov[0].sub(&prod)), vec![&maxs[0] * &maxs[1]]),
                "bigint_add" | "bigint_add_many" => (Some(ov[0].sub(&sum)), vec![maxs.iter().sum()]),
                "bigint_div_rem" => (Some(iv[0].sub(&ov[0].mul(&iv[1])).sub(&ov[1])), vec![maxs[0].clone(), (&maxs[1] - 1u32).min(maxs[0].clone())]),
                "foreign_field_mul" => (Some(ov[0].sub(&prod)), vec![field_p(to) - 1u32]),
                "foreign_field_add" | "foreign_field_add_many" => (Some(ov[0].sub(&sum)), vec![field_p(to) - 1u32]),
                "bigint_div" => (None, vec![maxs[0].clone()]),
                _ => (None, vec![(&maxs[1] - 1u32).min(maxs[0].clone())]),
            };
            for (i, (m, n)) in omax.iter().zip(&need).enumerate() {
                s.check(&format!("{} bound {}", k2, i), &s2, "the declared bound of the result is an upper bound", m >= n, || format!("{} is less than {}", m, n));
                let nl = ok_[i].len();
                s.check(&format!("{} size {}", k2, i), &s2, "the result has enough limbs for every value it can take", n.bits() as usize <= nl * LIMB, || format!("{} limbs for {} bits", nl, n.bits()));
            }
            // division: quotient and remainder are found through the comparison
            let mut goals = vec![];
            if let Some(q) = goal {
                goals.push(q);
            }
            let divides = m.starts_with("bigint_div") || m == "bigint_rem" || ff.is_some();
            if divides {
                let cs = cmps.borrow().clone();
                if cs.is_empty() {
                    return unsup("no comparison is reached");
                }
                let mut found = false;
                for (x, y, o) in &cs {
                    let mut kx = vec![];
                    for t in x {
                        let k = s.key(t)?;
                        kx.push(cc.find(k));
                    }
                    let mut yv = vec![];
                    let mut ky = vec![];
                    for t in y {
                        let k = s.key(t)?;
                        ky.push(cc.find(k));
                        yv.push(sol.val.get(&cc.find(k)).cloned());
                    }
                    let kl = s.key(&o[0])?;
                    let lt = sol.val.get(&cc.find(kl)).and_then(|v| v.as_const()) == Some(BigUint::one());
                    let modulus = match ff {
                        None => ky == ik[1],
                        Some(_) => {
                            let mut t = BigUint::zero();
                            for (i, v) in yv.iter().enumerate() {
                                if let Some(c) = v.as_ref().and_then(|v| v.as_const()) {
                                    t += c << (LIMB * i);
                                }
                            }
                            t == field_p(to)
                        }
                    };
                    let rem = if m == "bigint_div" { true } else { ok_.last() == Some(&kx) };
                    if lt && modulus && rem {
                        found = true;
                        if m == "bigint_div" {
                            // x - q y - r
                            let vals: Vec<Option<Poly>> = kx.iter().map(|k| sol.val.get(k).cloned()).collect();
                            if let Some((r, _)) = value(&vals) {
                                goals.push(iv[0].sub(&ov[0].mul(&iv[1])).sub(&r));
                            }
                        }
                    }
                }
                s.check(&format!("{} reduced", k2), &s2, "the remainder is forced to be smaller than the divisor", found, || "no comparison forces it".into());
                if m == "bigint_rem" {
                    // some quotient: any other group of range-checked limbs
                    let mut ok = false;
                    let mut groups: Vec<Poly> = vec![];
                    let rs: Vec<V<'tcx>> = rec.borrow().iter().map(|x| x.0.clone()).collect();
                    let mut ats = vec![];
                    for t in &rs {
                        let k = s.key(t)?;
                        if let Some(a) = atom_of.get(&cc.find(k)) {
                            ats.push(Poly::atom(to, *a));
                        }
                    }
                    for i in 0..ats.len() {
                        for n in 1..7.min(ats.len() - i + 1) {
                            groups.push(weighted(to, &ats[i..i + n], &w2(LIMB)));
                        }
                    }
                    groups.push(Poly::zero(to));
                    for q in groups {
                        if span.has(&iv[0].sub(&q.mul(&iv[1])).sub(&ov[0])) {
                            ok = true;
                            break;
                        }
                    }
                    s.check(&format!("{} value", k2), &s2, "the constraints imply, over the integers, that the operand is a multiple of the divisor plus the result", ok, || wraps.first().cloned().unwrap_or("not implied".into()));
                }
            }
            for q in goals {
                let ok = span.has(&q);
                s.check(&format!("{} value", k2), &s2, if ff.is_some() { "the constraints imply that the result is the specified one modulo the order of the field" } else { "the constraints imply, over the integers, that the result is the specified one" }, ok, || wraps.first().cloned().unwrap_or("not implied".into()));
            }
            Ok(())
        });
        Ok(())
    }
    /// comparison: for all limb values, by the position of the most significant differing limb
    fn big_cmp(&mut self, g: &Gad<'tcx>) -> R<()> {
        let fid = g.fid;
        let pm = field_p(fid);
        let (d, a, site) = self.gadget_fn(g, "bigint_cmp")?;
        for (nx, ny) in [(1usize, 1usize), (2, 2), (3, 3), (1, 2), (3, 1), (0, 1), (2, 0), (0, 0)] {
            let n = nx.max(ny);
            // which limbs differ: bit set of positions
            for diff in 0..(1usize << n) {
                let key = format!("bigint_cmp<{}> of {} and {} limbs, differing at {:b}", g.cn, nx, ny, diff);
                let (k2, s2) = (key.clone(), site.clone());
                self.hooked(&key, &site, |s| {
                    let b = s.new_builder(g.c)?;
                    let rec = s.hook_ranges()?;
                    let xs = s.targets(&b, g.c, nx)?;
                    let ys = s.targets(&b, g.c, ny)?;
                    let x = s.bigtarget(g, xs.clone(), &(w2(LIMB * nx) - 1u32))?;
                    let y = s.bigtarget(g, ys.clone(), &(w2(LIMB * ny) - 1u32))?;
                    let r = s.call(d, a, vec![b.clone(), ptr_to(x), ptr_to(y)])?;
                    let mut o = vec![];
                    for f in ["lt", "eq", "gt"] {
                        o.push(s.get_field(&r, f)?);
                    }
                    let mut known = vec![];
                    let mut nz = vec![];
                    let mut top = None;
                    for i in 0..n {
                        let xv = if i < nx { Poly::atom(fid, name(&format!("x{}", i))) } else { Poly::zero(fid) };
                        let mut yv = if i < ny { Poly::atom(fid, name(&format!("y{}", i))) } else { Poly::zero(fid) };
                        let mut xv = xv;
                        if diff >> i & 1 == 0 {
                            if i < ny && i < nx {
                                yv = xv.clone();
                            } else {
                                xv = Poly::zero(fid);
                                yv = Poly::zero(fid);
                            }
                        } else {
                            nz.push(xv.sub(&yv));
                            top = Some(yv.sub(&xv));
                        }
                        if i < nx {
                            known.push((xs[i].clone(), xv));
                        }
                        if i < ny {
                            known.push((ys[i].clone(), yv));
                        }
                    }
                    let mut cc = s.circ(&b, g.c, g.inner)?;
                    // a contradiction: a constant, or something known not to vanish
                    let contra = |sol: &Solved| sol.asserts.iter().any(|q| q.2.as_const().is_some() || nz.iter().any(|z| proportional(z, &q.2)));
                    for (k, nm) in ["less", "equal", "greater"].iter().enumerate() {
                        let mut kn = known.clone();
                        for (j, t) in o.iter().enumerate() {
                            kn.push((t.clone(), Poly::int(fid, (j == k) as u64)));
                        }
                        let sol = s.solve_nz(&mut cc, &kn, &nz)?;
                        if !sol.open.is_empty() {
                            return unsup(format!("constraint {} is not resolved", sol.open[0].2.show_d(2)));
                        }
                        let mut rs = vec![];
                        for (t, l) in rec.borrow().iter() {
                            let kk = s.key(t)?;
                            match sol.val.get(&cc.find(kk)) {
                                Some(v) => rs.push((v.clone(), *l)),
                                None => return unsup("range-checked value is not determined"),
                            }
                        }
                        let bad = contra(&sol);
                        match &top {
                            None => s.check(&format!("{} {}", k2, nm), &s2, "equal integers compare as equal, and only so", bad != (k == 1) && (k != 1 || rs.iter().all(|r| r.0.is_zero())), || "the wrong ordering".into()),
                            Some(t) => {
                                // t = y - x at the most significant difference: positive if x < y
                                let ok = match k {
                                    1 => bad,
                                    _ => {
                                        let want = if k == 0 { t.clone() } else { t.neg() };
                                        // honest: fits in any range of at least a limb; wrong way round: p minus less than a limb
                                        !bad && rs.iter().any(|r| r.0.sub(&want).is_zero() && r.1 * 2 < 254 && w2(2 * r.1) + w2(LIMB) <= pm) && rs.iter().all(|r| r.1 * 2 >= LIMB && (r.0.sub(&want).is_zero() || r.0.is_zero()))
                                    }
                                };
                                s.check(&format!("{} {}", k2, nm), &s2, "an ordering is accepted exactly if the most significant differing limbs are in that order", ok, || format!("range-checked: {:?}; contradiction: {}", rs.iter().map(|r| (r.0.show_d(2), r.1)).collect::<Vec<_>>(), bad));
                            }
                        }
                    }
                    // the three outputs are binary and exactly one is set
                    if diff == 0 {
                        let l: Vec<Poly> = (0..3).map(|i| Poly::atom(fid, name(&format!("o{}", i)))).collect();
                        let mut kn = known.clone();
                        for (t, p) in o.iter().zip(&l) {
                            kn.push((t.clone(), p.clone()));
                        }
                        let sol = s.solve_nz(&mut cc, &kn, &nz)?;
                        let asserted = |q: &Poly| sol.asserts.iter().any(|y| proportional(&y.2, q));
                        let mut ok = asserted(&l[0].add(&l[1]).add(&l[2]).sub(&Poly::one(fid)));
                        for i in 0..3 {
                            ok &= asserted(&l[i].mul(&l[i]).sub(&l[i]));
                        }
                        s.check(&format!("{} one of three", k2), &s2, "the outputs are binary and one of them is set", ok, || "not enforced".into());
                    }
                    Ok(())
                });
            }
        }
        Ok(())
    }
    /// the generators complete the witness, and it satisfies the gates, range checks included
    fn big_complete(&mut self, g: &Gad<'tcx>) -> R<()> {
        let fid = g.fid;
        let pm = field_p(fid);
        let o = &pm - 1u32;
        let mid = (w2(200) + w2(86) * 77u32 + w2(40)) - 3u32;
        let mut cases: Vec<(&str, Option<Ty<'tcx>>, Vec<(BigUint, BigUint)>)> = vec![];
        let t = |v: &BigUint, m: &BigUint| (v.clone(), m.clone());
        for (x, y) in [(t(&o, &o), t(&o, &o)), (t(&mid, &o), t(&big(9), &w2(86))), (t(&big(0), &o), t(&mid, &mid)), (t(&(w2(86) - 1u32), &w2(86)), t(&w2(86), &w2(86)))] {
            for m in ["bigint_mul", "bigint_add", "bigint_div_rem", "bigint_cmp"] {
                cases.push((m, None, vec![x.clone(), y.clone()]));
            }
        }
        // the largest operands: every intermediate sum is as large as its bound allows
        let full = w2(86) - 1u32;
        for (x, y) in [
            (full.clone(), full.clone()),
            (big(1), big(1)),
            (big(1), full.clone()),
            (w2(172) - 1u32, big(1)),
            (((&full - 1u32) << 86usize) + &full, w2(86) + 1u32),
            (w2(86) + 1u32, w2(172) - 1u32),
            (w2(258) - 1u32, w2(258) - 1u32),
            (w2(258) - 1u32, w2(172) - 1u32),
            (o.clone(), big(3)),
            (big(0), mid.clone()),
            (&o * &o, o.clone()),
        ] {
            for m in ["bigint_mul", "bigint_add", "bigint_div_rem", "bigint_cmp"] {
                cases.push((m, None, vec![t(&x, &x), t(&y, &y)]));
            }
        }
        cases.push(("bigint_cmp", None, vec![t(&big(5), &o), t(&(w2(86) + 1u32), &o)]));
        cases.push(("bigint_div_rem", None, vec![t(&mid, &o), t(&mid, &o)]));
        for (c, _) in self.curve_pairs()? {
            let f = self.scalar(c)?;
            let n = field_p(self.fid_of(f)?) - 1u32;
            if cases.iter().any(|x| x.1 == Some(f)) {
                continue;
            }
            cases.push(("foreign_field_mul", Some(f), vec![t(&n, &n), t(&n, &n)]));
            cases.push(("foreign_field_add", Some(f), vec![t(&mid, &n), t(&(&n - &mid + 1u32), &n)]));
        }
        for (m, ff, ins) in cases {
            let d = self.method("CircuitBuilder", m)?;
            let a = self.args_for(d, g.c, g.inner, &ff.into_iter().collect::<Vec<_>>());
            let site = self.site(d);
            let key = format!("{}<{}> witness for {}", m, g.cn, ins.iter().map(|x| format!("{:x}", x.0)).collect::<Vec<_>>().join(", "));
            let (k2, s2) = (key.clone(), site.clone());
            let m = m.to_string();
            self.unit(&key, &site, |s| {
                let b = s.new_builder(g.c)?;
                let mut args = vec![b.clone()];
                let mut known = vec![];
                for (v, max) in &ins {
                    let x = s.big_input(g, &b, max)?;
                    let (ls, _) = s.big_parts(&x)?;
                    for (l, dg) in ls.iter().zip(digits(v, ls.len())) {
                        known.push((l.clone(), Poly::constant(fid, dg)));
                    }
                    let x = match ff {
                        Some(f) => s.foreign(g, f, x)?,
                        None => x,
                    };
                    args.push(ptr_to(x));
                }
                let r = s.call(d, a, args)?;
                let r0 = r.clone();
                let (x, y) = (&ins[0].0, &ins[1].0);
                let want: Vec<(V<'tcx>, BigUint)> = match m.as_str() {
                    "bigint_mul" => vec![(r, x * y)],
                    "bigint_add" => vec![(r, x + y)],
                    "bigint_div_rem" => vec![(r.field(0)?, x / y), (r.field(1)?, x % y)],
                    "bigint_cmp" => vec![],
                    _ => {
                        let n = field_p(s.fid_of(ff.unwrap())?);
                        vec![(s.get_field(&r, "value")?, if m == "foreign_field_mul" { x * y % n } else { (x + y) % n })]
                    }
                };
                let mut want: Vec<(V<'tcx>, BigUint)> = {
                    let mut w = vec![];
                    for (t, v) in want {
                        let (ls, _) = s.big_parts(&t)?;
                        let ds = digits(&v, ls.len());
                        w.extend(ls.into_iter().zip(ds));
                    }
                    w
                };
                if m == "bigint_cmp" {
                    for (f, v) in [("lt", x < y), ("eq", x == y), ("gt", x > y)] {
                        want.push((s.get_field(&r0, f)?, big(v as u64)));
                    }
                }
                let mut cc = s.circ(&b, g.c, g.inner)?;
                let w = s.witness(&mut cc, &known)?;
                s.check(&format!("{} generators agree", k2), &s2, "no two generators set the same wire class to different values", w.conflicts.is_empty(), || w.conflicts[0].clone());
                s.check(&format!("{} generators run", k2), &s2, "every generator's dependencies become available", w.stuck.is_empty(), || format!("stuck: {:?}", w.stuck));
                for (i, (t, v)) in want.drain(..).enumerate() {
                    let k = s.key(&t)?;
                    let got = w.val.get(&cc.find(k)).cloned();
                    let ok = got.as_ref().map(|p| p.sub(&Poly::constant(fid, v.clone())).is_zero()) == Some(true);
                    s.check(&format!("{} limb {}", k2, i), &s2, "the generated result is the specified value", ok, || format!("{:?} instead of {}", got.map(|p| p.show()), v));
                }
                let bad = s.violated(&mut cc, &w)?;
                s.check(&format!("{} satisfiable", k2), &s2, "the generated witness satisfies every gate constraint", bad.is_empty(), || format!("row {} constraint {} is {}", bad[0].0, bad[0].1, bad[0].2.show()));
                Ok(())
            });
        }
        Ok(())
    }
    /// reading and writing witness values of composite targets
    fn witness_access(&mut self, g: &Gad<'tcx>) -> R<()> {
        let fid = g.fid;
        let pm = field_p(fid);
        let sf = self.scalar(g.c)?;
        let pwt = {
            let d = self.find_adt("PartialWitness")?;
            self.ty_of(d, &[sf])
        };
        let acc = |s: &mut Self, m: &str, ff: &[Ty<'tcx>], args: Vec<V<'tcx>>| -> R<V<'tcx>> {
            let d = s.method("PartialWitness", m)?;
            let mut f = vec![sf];
            f.extend(ff);
            let a = s.args_for(d, g.c, g.inner, &f);
            s.call(d, a, args)
        };
        let o = &pm - 1u32;
        let mut vals = vec![
            (big(0), 0usize),
            (big(0), 3),
            (big(7), 1),
            (w2(86) - 1u32, 1),
            (w2(86), 2),
            (w2(86) - 1u32, 3),
            (w2(172) + w2(40), 3),
            (o.clone(), 3),
            (&o * &o, 6),
        ];
        vals.push((w2(258) - 1u32, 3));
        let site = {
            let d = self.method("PartialWitness", "set_bigint_target")?;
            self.site(d)
        };
        for (v, n) in vals {
            let key = format!("PartialWitness<{}> bigint {:x} in {} limbs", g.cn, v, n);
            let (k2, s2) = (key.clone(), site.clone());
            self.unit(&key, &site, |s| {
                let b = s.new_builder(g.c)?;
                let ts = s.targets(&b, g.c, n)?;
                let t = s.bigtarget(g, ts.clone(), &(w2(LIMB * n) - 1u32))?;
                let pw = ptr_to(s.partial(pwt, &[])?);
                let bv = s.bigval(&v)?;
                acc(s, "set_bigint_target", &[], vec![pw.clone(), ptr_to(t.clone()), ptr_to(bv)])?;
                s.entries_are(&pw, ts.iter().cloned().zip(digits(&v, n).into_iter().map(|x| Poly::constant(fid, x))).collect(), &k2, &s2)?;
                let r = acc(s, "get_bigint_target", &[], vec![pw.clone(), ptr_to(t)])?;
                let r = s.it.big_of(&r)?;
                s.check(&format!("{} read", k2), &s2, "the value read is the value written", r.as_ref() == Some(&v), || format!("{:?}", r));
                Ok(())
            });
        }
        let mut ffs = vec![];
        for (c, _) in self.curve_pairs()? {
            let f = self.scalar(c)?;
            if !ffs.contains(&f) {
                ffs.push(f);
            }
        }
        for ff in ffs {
            let f2 = self.fid_of(ff)?;
            let n = field_p(f2);
            for v in [big(0), big(5), w2(86) + 3u32, &n - 1u32, &n >> 1usize] {
                let key = format!("PartialWitness<{}> {} element {:x}", g.cn, field_name(f2), v);
                let (k2, s2) = (key.clone(), site.clone());
                let n = n.clone();
                self.unit(&key, &site, |s| {
                    let b = s.new_builder(g.c)?;
                    let ts = s.targets(&b, g.c, 3)?;
                    let t = s.bigtarget(g, ts.clone(), &(&n - 1u32))?;
                    let t = s.foreign(g, ff, t)?;
                    let pw = ptr_to(s.partial(pwt, &[])?);
                    acc(s, "set_foreign_field_target", &[ff], vec![pw.clone(), ptr_to(t.clone()), V::F(Poly::constant(f2, v.clone()))])?;
                    s.entries_are(&pw, ts.iter().cloned().zip(digits(&v, 3).into_iter().map(|x| Poly::constant(fid, x))).collect(), &k2, &s2)?;
                    let r = acc(s, "get_foreign_field_target", &[ff], vec![pw.clone(), ptr_to(t)])?;
                    let r = s.it.deref_all(&r)?.poly()?;
                    s.check(&format!("{} read", k2), &s2, "the element read is the element written", r.sub(&Poly::constant(f2, v.clone())).is_zero(), || r.show());
                    Ok(())
                });
            }
        }
        let (sd, gd, cd) = (self.method("PartialWitness", "set_ordering_target")?, self.method("PartialWitness", "get_ordering_target")?, self.method("CircuitBuilder", "constant_ordering")?);
        let site = self.site(sd);
        for (i, nm) in ["lt", "eq", "gt"].iter().enumerate() {
            let key = format!("PartialWitness<{}> ordering {}", g.cn, nm);
            let (k2, s2) = (key.clone(), site.clone());
            self.unit(&key, &site, |s| {
                let ot = s.find_adt("OrderingTarget")?;
                let ot = s.ty_of(ot, &[sf]);
                let b = s.new_builder(g.c)?;
                let ts = s.targets(&b, g.c, 3)?;
                let mut f = vec![V::Uninit; 3];
                for (k, n) in ["lt", "eq", "gt"].iter().enumerate() {
                    f[s.fidx(ot, n)?] = ts[k].clone();
                }
                let t = adt(ot, 0, f);
                let aa = s.args_for(gd, g.c, g.inner, &[sf]);
                let ord = s.ret_ty(gd, aa);
                let v = adt(ord, i as u32, vec![]);
                let pw = ptr_to(s.partial(pwt, &[])?);
                acc(s, "set_ordering_target", &[], vec![pw.clone(), t.clone(), v.clone()])?;
                let want = (0..3).map(|j| (ts[j].clone(), Poly::int(fid, (i == j) as u64))).collect();
                s.entries_are(&pw, want, &k2, &s2)?;
                let r = acc(s, "get_ordering_target", &[], vec![pw.clone(), t])?;
                let ok = matches!(&r, V::Adt(x) if x.variant == i as u32);
                s.check(&format!("{} read", k2), &s2, "the ordering read is the ordering written", ok, || r.show_d(2));
                // and as a constant of the circuit
                let aa = s.args_for(cd, g.c, g.inner, &[]);
                let r = s.call(cd, aa, vec![b.clone(), v])?;
                let mut o = vec![];
                for n in ["lt", "eq", "gt"] {
                    o.push(s.get_field(&r, n)?);
                }
                let mut cc = s.circ(&b, g.c, g.inner)?;
                let sol = s.solve(&mut cc, &[])?;
                let mut ok = true;
                for (j, t) in o.iter().enumerate() {
                    let k = s.key(t)?;
                    ok &= sol.val.get(&cc.find(k)).map(|p| p.sub(&Poly::int(fid, (i == j) as u64)).is_zero()) == Some(true);
                }
                s.check(&format!("{} constant", k2), &s2, "a constant ordering has one at the ordering and zero elsewhere", ok, || "another ordering".into());
                Ok(())
            });
        }
        let site = {
            let d = self.method("PartialWitness", "set_point_target")?;
            self.site(d)
        };
        let key = format!("PartialWitness<{}> points", g.cn);
        let (k2, s2) = (key.clone(), site.clone());
        self.unit(&key, &site, |s| {
            let b = s.new_builder(g.c)?;
            let ts = s.targets(&b, g.c, 4)?;
            let ps: Vec<Poly> = (0..4).map(|i| Poly::atom(fid, name(&format!("c{}", i)))).collect();
            let d = s.find_adt("AffinePointTarget")?;
            let pt = s.ty_of(d, &[g.inner]);
            let gd = s.method("PartialWitness", "get_point_target")?;
            let ga = s.args_for(gd, g.c, g.inner, &[sf]);
            let at = s.ret_ty(gd, ga);
            let (xi, yi) = (s.fidx(pt, "x")?, s.fidx(pt, "y")?);
            let (ax, ay, az) = (s.fidx(at, "x")?, s.fidx(at, "y")?, s.fidx(at, "zero")?);
            let mut tv = vec![];
            let mut av = vec![];
            for i in 0..2 {
                let mut f = vec![V::Uninit; 2];
                f[xi] = ts[2 * i].clone();
                f[yi] = ts[2 * i + 1].clone();
                tv.push(adt(pt, 0, f));
                let mut f = vec![V::Uninit; 3];
                f[ax] = V::F(ps[2 * i].clone());
                f[ay] = V::F(ps[2 * i + 1].clone());
                f[az] = V::Int(0);
                av.push(adt(at, 0, f));
            }
            let want: Vec<_> = ts.iter().cloned().zip(ps.iter().cloned()).collect();
            let pw = ptr_to(s.partial(pwt, &[])?);
            acc(s, "set_point_targets", &[], vec![pw.clone(), sref(tv.clone()), sref(av.clone())])?;
            s.entries_are(&pw, want, &format!("{} all", k2), &s2)?;
            let pw = ptr_to(s.partial(pwt, &[])?);
            acc(s, "set_point_target", &[], vec![pw.clone(), tv[1].clone(), av[1].clone()])?;
            s.entries_are(&pw, (2..4).map(|i| (ts[i].clone(), ps[i].clone())).collect(), &format!("{} one", k2), &s2)?;
            let r = s.call(gd, ga, vec![pw, tv[1].clone()])?;
            let (rx, ry, rz) = (s.get_field(&r, "x")?.poly()?, s.get_field(&r, "y")?.poly()?, s.get_field(&r, "zero")?);
            let ok = rx.sub(&ps[2]).is_zero() && ry.sub(&ps[3]).is_zero() && matches!(rz, V::Int(0));
            s.check(&format!("{} read", k2), &s2, "the point read is the point written", ok, || r.show_d(3));
            Ok(())
        });
        Ok(())
    }
    /// a partial witness has exactly these values
    fn entries_are(&mut self, pw: &V<'tcx>, want: Vec<(V<'tcx>, Poly)>, key: &str, site: &str) -> R<()> {
        let v = self.it.deref_all(pw)?;
        let got = self.partial_entries(&v)?;
        let mut m = BTreeMap::new();
        for (t, p) in got {
            m.insert(self.key(&t)?, p);
        }
        let n = m.len();
        let mut ok = n == want.len();
        for (t, p) in &want {
            let k = self.key(t)?;
            ok &= m.get(&k).map(|q| q.sub(p).is_zero()) == Some(true);
        }
        self.check(&format!("{} written", key), site, "each component is written to its own target, and nothing else is", ok, || format!("{:?}", m.values().map(|p| p.show()).collect::<Vec<_>>()));
        Ok(())
    }
}
