//! What each gate means, and what the circuits built by the builder's gadgets force and generate.
use crate::base::*;
use crate::circ::*;
use crate::curve::Pt;
use crate::gates::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{GenericArgsRef, Ty};
use std::collections::BTreeSet;

/// how an input of a gadget is provided
#[derive(Clone)]
pub enum In {
    /// a fresh target of arbitrary value
    S(&'static str),
    /// a fresh target holding a given value
    V(Poly),
    /// the builder's constant wire
    C(Poly),
    /// the same target as an earlier input
    D(usize),
}
pub struct Exp {
    pub outs: Vec<Poly>,
    /// polynomials the circuit must force to vanish (and no others)
    pub asserts: Vec<Poly>,
    /// the circuit must be unsatisfiable
    pub unsat: bool,
    /// free outputs are allowed (generated, not constrained)
    pub free: bool,
}
pub fn outs(o: Vec<Poly>) -> Exp {
    Exp { outs: o, asserts: vec![], unsat: false, free: false }
}
pub fn asserts(a: Vec<Poly>) -> Exp {
    Exp { outs: vec![], asserts: a, unsat: false, free: false }
}
pub struct Gad<'tcx> {
    pub c: Ty<'tcx>,
    pub inner: Ty<'tcx>,
    pub fid: FieldId,
    pub cn: String,
}

impl<'tcx> Ctx<'tcx> {
    pub fn gad(&mut self, c: Ty<'tcx>, inner: Ty<'tcx>) -> R<Gad<'tcx>> {
        let sf = self.scalar(c)?;
        let fid = self.fid_of(sf)?;
        Ok(Gad { c, inner, fid, cn: self.it.head(c) })
    }
    /// one gadget in one scenario. The gadget is instantiated twice in the same builder (the second time on
    /// the same inputs), so that cached constants and neighbouring rows are exercised.
    pub fn gadget_case(
        &mut self,
        g: &Gad<'tcx>,
        nm: &str,
        label: &str,
        site: &str,
        ins: &[In],
        nz: &[&str],
        call: &dyn Fn(&mut Self, &V<'tcx>, &[V<'tcx>]) -> R<Vec<V<'tcx>>>,
        exp: &dyn Fn(&[Poly]) -> Exp,
    ) {
        let key = format!("{}<{}>{}", nm, g.cn, label);
        let k2 = key.clone();
        self.unit(&key, site, |s| {
            let b = s.new_builder(g.c)?;
            let cw = s.method("CircuitBuilder", "constant_wire")?;
            let ca = s.args_for(cw, g.c, g.inner, &[]);
            let mut ts: Vec<V<'tcx>> = vec![];
            let mut ps: Vec<Poly> = vec![];
            let mut known = vec![];
            for i in ins {
                let (t, p) = match i {
                    In::S(n) => {
                        let p = Poly::atom(g.fid, name(n));
                        let t = s.target(&b, g.c)?;
                        known.push((t.clone(), p.clone()));
                        (t, p)
                    }
                    In::V(p) => {
                        let t = s.target(&b, g.c)?;
                        known.push((t.clone(), p.clone()));
                        (t, p.clone())
                    }
                    In::C(p) => (s.call(cw, ca, vec![b.clone(), V::F(p.clone())])?, p.clone()),
                    In::D(k) => (ts[*k].clone(), ps[*k].clone()),
                };
                ts.push(t);
                ps.push(p);
            }
            let nzp: Vec<Poly> = nz.iter().map(|n| Poly::atom(g.fid, name(n))).collect();
            let o1 = call(s, &b, &ts)?;
            let o2 = call(s, &b, &ts)?;
            let e = exp(&ps);
            let mut cc = s.circ(&b, g.c, g.inner)?;
            let sol = s.solve_nz(&mut cc, &known, &nzp)?;
            let contradiction = sol.asserts.iter().any(|x| x.2.as_const().is_some());
            if e.unsat {
                s.check(&format!("{} rejected", k2), site, "the circuit is unsatisfiable on inputs outside the gadget's domain", contradiction, || {
                    "no constraint is contradicted".into()
                });
                return Ok(());
            }
            if !e.free {
                for (j, oo) in [&o1, &o2].into_iter().enumerate() {
                    s.check(&format!("{} arity {}", k2, j), site, "the gadget returns the expected number of targets", oo.len() == e.outs.len(), || format!("{} instead of {}", oo.len(), e.outs.len()));
                    for (i, (o, want)) in oo.iter().zip(&e.outs).enumerate() {
                        let k = s.key(o)?;
                        let v = sol.val.get(&cc.find(k)).cloned();
                        let ok = v.as_ref().map(|v| v.sub(want).is_zero()) == Some(true);
                        s.check(&format!("{} output {}.{} forced", k2, j, i), site, "gates and copy constraints force the output to the specified value", ok, || match v {
                            Some(v) => format!("forced to {} instead of {}", v.show(), want.show()),
                            None => format!("not determined (specified: {})", want.show()),
                        });
                    }
                }
            }
            // restrictions on the inputs: exactly the specified ones
            let strip = |p: &Poly| -> Poly {
                let mut q = p.normalised();
                for n in &nzp {
                    if let Some(a) = n.as_atom() {
                        while !q.t.is_empty() && q.t.keys().all(|m| m.iter().any(|x| x.0 == a && x.1 > 0)) {
                            q = q.mul(&n.inv());
                        }
                    }
                }
                q
            };
            for (_, _, p) in &sol.asserts {
                let p = strip(p);
                let ok = e.asserts.iter().any(|a| proportional(&strip(a), &p)) || crate::bigint::in_span(&p, &e.asserts);
                s.check(&format!("{} restricts only what it should", k2), site, "the circuit restricts its inputs only as specified", ok, || format!("also forces {} = 0", p.show()));
            }
            for a in &e.asserts {
                let a2 = strip(a);
                let all = || sol.asserts.iter().map(|x| x.2.clone()).collect::<Vec<_>>();
                let ok = sol.asserts.iter().any(|x| proportional(&strip(&x.2), &a2)) || crate::bigint::in_span(a, &all());
                s.check(&format!("{} enforces", k2), site, "the circuit enforces the specified restriction", ok, || format!("{} = 0 is not enforced", a.show()));
            }
            // completeness
            if e.asserts.is_empty() {
                let w = s.witness(&mut cc, &known)?;
                s.check(&format!("{} generators agree", k2), site, "no two generators set the same wire class to different values", w.conflicts.is_empty(), || w.conflicts[0].clone());
                s.check(&format!("{} generators run", k2), site, "every generator's dependencies become available", w.stuck.is_empty(), || format!("stuck: {:?}", w.stuck));
                for oo in [&o1, &o2] {
                    for (i, (o, want)) in oo.iter().zip(&e.outs).enumerate() {
                        let k = s.key(o)?;
                        let v = w.val.get(&cc.find(k)).cloned();
                        let ok = v.as_ref().map(|v| v.sub(want).is_zero()) == Some(true);
                        s.check(&format!("{} output {} generated", k2, i), site, "the generated output is the specified value", ok, || match v {
                            Some(v) => format!("generated {} instead of {}", v.show(), want.show()),
                            None => "not generated".into(),
                        });
                    }
                }
                let bad = s.violated(&mut cc, &w)?;
                s.check(&format!("{} satisfiable", k2), site, "the generated witness satisfies every gate constraint", bad.is_empty(), || {
                    format!("row {} constraint {} is {}", bad[0].0, bad[0].1, bad[0].2.show())
                });
            }
            Ok(())
        });
    }
    pub fn gadget_fn(&mut self, g: &Gad<'tcx>, m: &str) -> R<(DefId, GenericArgsRef<'tcx>, String)> {
        let d = self.method("CircuitBuilder", m)?;
        let a = self.args_for(d, g.c, g.inner, &[]);
        Ok((d, a, self.site(d)))
    }
    /// flatten a result made of targets
    pub fn flat_targets(&mut self, v: &V<'tcx>, out: &mut Vec<V<'tcx>>) -> R<()> {
        let v = self.it.deref_all(v)?;
        if let Ok(s) = self.it.seq_items(&v) {
            for x in s.iter() {
                self.flat_targets(x, out)?;
            }
            return Ok(());
        }
        match &v {
            V::Adt(a) => {
                let h = self.it.head(a.ty);
                if h == "Target" || h == "Wire" {
                    out.push(v.clone());
                    return Ok(());
                }
                for x in a.f.clone().iter() {
                    self.flat_targets(x, out)?;
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }

    pub fn check_gadgets(&mut self) -> R<()> {
        for (c, inner) in self.curve_pairs()? {
            let g = self.gad(c, inner)?;
            let f = g.fid;
            let z = || Poly::zero(f);
            let o = || Poly::one(f);
            let n = |i: i64| if i < 0 { Poly::int(f, (-i) as u64).neg() } else { Poly::int(f, i as u64) };
            use In::*;
            // plain gadgets of targets: name, scenarios, specification
            type Sc = Vec<(&'static str, Vec<In>, Vec<&'static str>)>;
            let un: Sc = vec![("", vec![S("x")], vec![]), (" of zero", vec![C(z())], vec![]), (" of one", vec![C(o())], vec![])];
            let bin: Sc = vec![
                ("", vec![S("x"), S("y")], vec![]),
                (" same", vec![S("x"), D(0)], vec![]),
                (" zero left", vec![C(z()), S("y")], vec![]),
                (" zero right", vec![S("x"), C(z())], vec![]),
                (" one left", vec![C(o()), S("y")], vec![]),
                (" one right", vec![S("x"), C(o())], vec![]),
                (" zero one", vec![C(z()), C(o())], vec![]),
                (" one zero", vec![C(o()), C(z())], vec![]),
                (" zero zero", vec![C(z()), D(0)], vec![]),
                (" one one", vec![C(o()), D(0)], vec![]),
                (" minus one", vec![S("x"), C(n(-1))], vec![]),
                (" value zero", vec![V(z()), S("y")], vec![]),
                (" two", vec![C(n(2)), S("y")], vec![]),
            ];
            let ter: Sc = vec![
                ("", vec![S("x"), S("y"), S("z")], vec![]),
                (" first two same", vec![S("x"), D(0), S("z")], vec![]),
                (" all same", vec![S("x"), D(0), D(0)], vec![]),
                (" ends same", vec![S("x"), S("y"), D(0)], vec![]),
                (" last two same", vec![S("x"), S("y"), D(1)], vec![]),
                (" first zero", vec![C(z()), S("y"), S("z")], vec![]),
                (" first one", vec![C(o()), S("y"), S("z")], vec![]),
                (" second zero", vec![S("x"), C(z()), S("z")], vec![]),
                (" second one", vec![S("x"), C(o()), S("z")], vec![]),
                (" last zero", vec![S("x"), S("y"), C(z())], vec![]),
                (" last one", vec![S("x"), S("y"), C(o())], vec![]),
            ];
            let zn: Sc = vec![
                (" nonzero", vec![S("x")], vec!["x"]),
                (" of zero", vec![V(z())], vec![]),
                (" of constant zero", vec![C(z())], vec![]),
                (" of constant one", vec![C(o())], vec![]),
                (" of five", vec![V(n(5))], vec![]),
            ];
            let eqs: Sc = vec![
                (" equal values", vec![S("x"), V(Poly::atom(f, name("x")))], vec![]),
                (" same", vec![S("x"), D(0)], vec![]),
                (" distinct", vec![V(n(3)), V(n(7))], vec![]),
                (" with zero", vec![S("x"), C(z())], vec!["x"]),
                (" zero with zero", vec![V(z()), C(z())], vec![]),
                (" distinct one", vec![V(n(-1)), C(o())], vec![]),
            ];
            let isz = move |p: &Poly| if p.is_zero() { Poly::one(f) } else { Poly::zero(f) };
            let spec: Vec<(&str, &Sc, Box<dyn Fn(&[Poly]) -> Exp>)> = vec![
                ("add", &bin, Box::new(|p| outs(vec![p[0].add(&p[1])]))),
                ("sub", &bin, Box::new(|p| outs(vec![p[0].sub(&p[1])]))),
                ("mul", &bin, Box::new(|p| outs(vec![p[0].mul(&p[1])]))),
                ("double", &un, Box::new(|p| outs(vec![p[0].add(&p[0])]))),
                ("square", &un, Box::new(|p| outs(vec![p[0].mul(&p[0])]))),
                ("neg", &un, Box::new(|p| outs(vec![p[0].neg()]))),
                ("not", &un, Box::new(move |p| outs(vec![Poly::one(f).sub(&p[0])]))),
                ("mul_add", &ter, Box::new(|p| outs(vec![p[0].mul(&p[1]).add(&p[2])]))),
                ("mul_sub", &ter, Box::new(|p| outs(vec![p[0].mul(&p[1]).sub(&p[2])]))),
                ("is_zero", &zn, Box::new(move |p| outs(vec![isz(&p[0])]))),
                ("is_nonzero", &zn, Box::new(move |p| outs(vec![Poly::one(f).sub(&isz(&p[0]))]))),
                ("is_equal", &eqs, Box::new(move |p| outs(vec![isz(&p[0].sub(&p[1]))]))),
                ("is_not_equal", &eqs, Box::new(move |p| outs(vec![Poly::one(f).sub(&isz(&p[0].sub(&p[1])))]))),
                ("inv", &zn, Box::new(|p| if p[0].is_zero() { Exp { outs: vec![], asserts: vec![], unsat: true, free: false } } else { outs(vec![p[0].inv()]) })),
                ("assert_nonzero", &zn, Box::new(|p| if p[0].is_zero() { Exp { outs: vec![], asserts: vec![], unsat: true, free: false } } else { outs(vec![]) })),
            ];
            for (m, scs, ex) in &spec {
                let (d, a, site) = match self.gadget_fn(&g, m) {
                    Ok(x) => x,
                    Err(e) => {
                        self.ob(m, "", "anchor", St::Undecided, format!("{:?}", e));
                        continue;
                    }
                };
                for (label, ins, nz) in scs.iter() {
                    self.gadget_case(
                        &g,
                        m,
                        label,
                        &site,
                        ins,
                        nz,
                        &|s, b, t| {
                            let mut v = vec![b.clone()];
                            v.extend(t.iter().cloned());
                            let r = s.call(d, a, v)?;
                            let mut o = vec![];
                            s.flat_targets(&r, &mut o)?;
                            Ok(o)
                        },
                        &|p| ex(p),
                    );
                }
            }
            // division
            let (d, a, site) = self.gadget_fn(&g, "div")?;
            let dv: Sc = vec![
                ("", vec![S("x"), S("y")], vec!["y"]),
                (" by one", vec![S("x"), C(o())], vec![]),
                (" of one", vec![C(o()), S("y")], vec!["y"]),
                (" by zero", vec![S("x"), V(z())], vec![]),
                (" itself", vec![S("x"), D(0)], vec!["x"]),
            ];
            for (label, ins, nz) in &dv {
                self.gadget_case(
                    &g,
                    "div",
                    label,
                    &site,
                    ins,
                    nz,
                    &|s, b, t| Ok(vec![s.call(d, a, vec![b.clone(), t[0].clone(), t[1].clone()])?]),
                    &|p| if p[1].is_zero() { Exp { outs: vec![], asserts: vec![], unsat: true, free: false } } else { outs(vec![p[0].mul(&p[1].inv())]) },
                );
            }
            // select: the condition is binary
            let (d, a, site) = self.gadget_fn(&g, "select")?;
            for (label, ins) in [
                (" true", vec![V(o()), S("x"), S("y")]),
                (" false", vec![V(z()), S("x"), S("y")]),
                (" constant true", vec![C(o()), S("x"), S("y")]),
                (" constant false", vec![C(z()), S("x"), S("y")]),
                (" same", vec![V(z()), S("x"), D(1)]),
                (" zero one", vec![V(o()), C(z()), C(o())]),
                (" one zero", vec![V(z()), C(o()), C(z())]),
                (" condition chosen", vec![V(o()), D(0), S("y")]),
                (" condition not chosen", vec![V(z()), S("x"), D(0)]),
            ] {
                self.gadget_case(
                    &g,
                    "select",
                    label,
                    &site,
                    &ins,
                    &[],
                    &|s, b, t| Ok(vec![s.call(d, a, vec![b.clone(), t[0].clone(), t[1].clone(), t[2].clone()])?]),
                    &|p| outs(vec![if p[0].is_zero() { p[2].clone() } else { p[1].clone() }]),
                );
            }
            // assertions
            for (m, sc) in [
                ("assert_zero", vec![("", vec![S("x")]), (" zero", vec![V(z())]), (" constant zero", vec![C(z())]), (" one", vec![V(o())]), (" constant one", vec![C(o())])]),
                ("assert_one", vec![("", vec![S("x")]), (" zero", vec![V(z())]), (" constant zero", vec![C(z())]), (" one", vec![V(o())]), (" constant one", vec![C(o())])]),
                ("assert_binary", vec![("", vec![S("x")]), (" zero", vec![V(z())]), (" one", vec![V(o())]), (" constant one", vec![C(o())]), (" two", vec![V(n(2))]), (" minus one", vec![V(n(-1))])]),
                ("copy", vec![("", vec![S("x"), S("y")]), (" same", vec![S("x"), D(0)]), (" constant", vec![S("x"), C(o())])]),
            ] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                let want = move |p: &[Poly]| -> Poly {
                    match m {
                        "assert_zero" => p[0].clone(),
                        "assert_one" => p[0].sub(&Poly::one(f)),
                        "assert_binary" => p[0].mul(&p[0]).sub(&p[0]),
                        _ => p[0].sub(&p[1]),
                    }
                };
                for (label, ins) in &sc {
                    self.gadget_case(
                        &g,
                        m,
                        label,
                        &site,
                        ins,
                        &[],
                        &|s, b, t| {
                            let mut v = vec![b.clone()];
                            v.extend(t.iter().cloned());
                            s.call(d, a, v)?;
                            Ok(vec![])
                        },
                        &|p| {
                            let w = want(p);
                            if w.is_zero() {
                                outs(vec![])
                            } else if w.as_const().is_some() {
                                Exp { outs: vec![], asserts: vec![], unsat: true, free: false }
                            } else {
                                asserts(vec![w])
                            }
                        },
                    );
                }
            }
            let (d, a, site) = self.gadget_fn(&g, "conditional_copy")?;
            for (label, ins, nz) in [
                (" nonzero condition", vec![S("c"), S("x"), S("y")], vec!["c"]),
                (" true", vec![V(o()), S("x"), S("y")], vec![]),
                (" constant true", vec![C(o()), S("x"), S("y")], vec![]),
                (" false", vec![V(z()), S("x"), S("y")], vec![]),
                (" constant false", vec![C(z()), S("x"), S("y")], vec![]),
                (" equal", vec![S("c"), S("x"), V(Poly::atom(f, name("x")))], vec![]),
            ] {
                self.gadget_case(
                    &g,
                    "conditional_copy",
                    label,
                    &site,
                    &ins,
                    &nz,
                    &|s, b, t| {
                        s.call(d, a, vec![b.clone(), t[0].clone(), t[1].clone(), t[2].clone()])?;
                        Ok(vec![])
                    },
                    &|p| {
                        let w = p[0].mul(&p[1].sub(&p[2]));
                        if w.is_zero() { outs(vec![]) } else { asserts(vec![w]) }
                    },
                );
            }
            // folds
            for m in ["add_many", "mul_many"] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                for k in 0..5usize {
                    let nm = ["a", "b", "c", "d"];
                    let mut ins: Vec<In> = nm[..k.min(4)].iter().map(|x| S(x)).collect();
                    if k >= 2 && k < 4 {
                        ins.push(D(0));
                        ins.push(if k == 2 { C(z()) } else { C(o()) });
                        ins.push(S("e"));
                    }
                    self.gadget_case(
                        &g,
                        m,
                        &format!(" of {}", ins.len()),
                        &site,
                        &ins,
                        &[],
                        &|s, b, t| Ok(vec![s.call(d, a, vec![b.clone(), sref(t.to_vec())])?]),
                        &|p| outs(vec![p.iter().fold(if m == "add_many" { Poly::zero(f) } else { Poly::one(f) }, |x, y| if m == "add_many" { x.add(y) } else { x.mul(y) })]),
                    );
                }
            }
            // powers
            let (d, a, site) = self.gadget_fn(&g, "exp_constant_usize")?;
            for e in [0u64, 1, 2, 3, 4, 5, 7, 8, 11, 12, 16, 21, 31] {
                self.gadget_case(
                    &g,
                    "exp_constant_usize",
                    &format!(" {}", e),
                    &site,
                    &[S("x")],
                    &[],
                    &|s, b, t| Ok(vec![s.call(d, a, vec![b.clone(), t[0].clone(), crate::val::V::Int(e as u128)])?]),
                    &|p| outs(vec![(0..e).fold(Poly::one(f), |x, _| x.mul(&p[0]))]),
                );
            }
            let (d, a, site) = self.gadget_fn(&g, "exp_constant")?;
            let pm = field_p(f);
            let w = |e: u32| BigUint::from(1u32) << e;
            let exps: Vec<(String, BigUint)> = vec![
                ("0".into(), BigUint::from(0u32)),
                ("1".into(), BigUint::from(1u32)),
                ("6".into(), BigUint::from(6u32)),
                ("2^63".into(), w(63)),
                ("2^64-1".into(), w(64) - 1u32),
                ("2^64".into(), w(64)),
                ("2^65+2^64+1".into(), w(65) + w(64) + 1u32),
                ("2^128-2^63".into(), w(128) - w(63)),
                ("2^192+5".into(), w(192) + 5u32),
                ("-1".into(), &pm - 1u32),
                ("1/5".into(), BigUint::from(5u32).modpow(&(&pm - 2u32), &pm)),
            ];
            for (label, e) in &exps {
                self.gadget_case(
                    &g,
                    "exp_constant",
                    &format!(" {}", label),
                    &site,
                    &[V(n(7))],
                    &[],
                    &|s, b, t| Ok(vec![s.call(d, a, vec![b.clone(), t[0].clone(), crate::val::V::F(Poly::constant(f, e.clone()))])?]),
                    &|_| outs(vec![Poly::constant(f, BigUint::from(7u32).modpow(e, &pm))]),
                );
            }
            // constants
            for (m, v) in [("zero_wire", z()), ("one_wire", o()), ("two_wire", n(2)), ("neg_one_wire", n(-1))] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                self.gadget_case(&g, m, "", &site, &[], &[], &|s, b, _| Ok(vec![s.call(d, a, vec![b.clone()])?]), &|_| outs(vec![v.clone()]));
            }
            let (d, a, site) = self.gadget_fn(&g, "constant_wire_u32")?;
            for v in [0u64, 1, 2, 77, 0xffff_ffff] {
                self.gadget_case(
                    &g,
                    "constant_wire_u32",
                    &format!(" {}", v),
                    &site,
                    &[],
                    &[],
                    &|s, b, _| Ok(vec![s.call(d, a, vec![b.clone(), crate::val::V::Int(v as u128)])?]),
                    &|_| outs(vec![Poly::int(f, v)]),
                );
            }
            let (d, a, site) = self.gadget_fn(&g, "constant_wires")?;
            let cs: Vec<Poly> = vec![o(), n(5), z(), n(5), n(-1), n(1 << 40), n(2), n(-3)];
            let cs2 = cs.clone();
            self.gadget_case(
                &g,
                "constant_wires",
                "",
                &site,
                &[],
                &[],
                &|s, b, _| {
                    let r = s.call(d, a, vec![b.clone(), fref(&cs)])?;
                    let mut o = vec![];
                    s.flat_targets(&r, &mut o)?;
                    Ok(o)
                },
                &|_| outs(cs2.clone()),
            );
            let (d, a, site) = self.gadget_fn(&g, "generate_constant")?;
            self.gadget_case(
                &g,
                "generate_constant",
                "",
                &site,
                &[],
                &[],
                &|s, b, _| {
                    let t = s.target(b, c)?;
                    s.call(d, a, vec![b.clone(), t.clone(), crate::val::V::F(n(9))])?;
                    Ok(vec![t])
                },
                &|_| Exp { outs: vec![n(9)], asserts: vec![], unsat: false, free: true },
            );
            // orderings
            for (m, v) in [("ordering_lt", [1, 0, 0]), ("ordering_eq", [0, 1, 0]), ("ordering_gt", [0, 0, 1])] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                self.gadget_case(
                    &g,
                    m,
                    "",
                    &site,
                    &[],
                    &[],
                    &|s, b, _| {
                        let r = s.call(d, a, vec![b.clone()])?;
                        s.ordering_targets(&r)
                    },
                    &|_| outs(v.iter().map(|i| n(*i)).collect()),
                );
            }
            let (d, a, site) = self.gadget_fn(&g, "ordering_assert_valid")?;
            let ot = self.find_adt("OrderingTarget")?;
            let sf = self.scalar(c)?;
            let ott = self.ty_of(ot, &[sf]);
            for i in 0..27usize {
                let v = [(i % 3) as i64, ((i / 3) % 3) as i64, (i / 9) as i64];
                let good = v.iter().sum::<i64>() == 1;
                let ins: Vec<In> = v.iter().map(|x| V(n(*x))).collect();
                self.gadget_case(
                    &g,
                    "ordering_assert_valid",
                    &format!(" {:?}", v),
                    &site,
                    &ins,
                    &[],
                    &|s, b, t| {
                        let def = s.tcx.adt_def(ot);
                        let mut fs = vec![];
                        for fd in def.non_enum_variant().fields.iter() {
                            let k = ["lt", "eq", "gt"].iter().position(|x| *x == fd.name.as_str());
                            match k {
                                Some(k) => fs.push(t[k].clone()),
                                None => return unsup("OrderingTarget fields"),
                            }
                        }
                        s.call(d, a, vec![b.clone(), adt(ott, 0, fs)])?;
                        Ok(vec![])
                    },
                    &|_| Exp { outs: vec![], asserts: vec![], unsat: !good, free: false },
                );
            }
            // bit decomposition generators
            let (d, a, site) = self.gadget_fn(&g, "split_binary_and_base_4")?;
            let pmv = &pm - 1u32;
            for (label, v) in [("0", BigUint::from(0u32)), ("1", BigUint::from(1u32)), ("big", w(200) + w(64) * 3u32 + 0x9e37_79b9_7f4a_7c15u64), ("-1", pmv.clone())] {
                for (nb, nd) in [(0usize, 0usize), (3, 0), (0, 5), (2, 126), (128, 63), (65, 3)] {
                    let v2 = v.clone();
                    self.gadget_case(
                        &g,
                        "split_binary_and_base_4",
                        &format!(" {} {}+{}", label, nb, nd),
                        &site,
                        &[V(Poly::constant(f, v.clone()))],
                        &[],
                        &|s, b, t| {
                            let r = s.call(d, a, vec![b.clone(), t[0].clone(), crate::val::V::Int(nb as u128), crate::val::V::Int(nd as u128)])?;
                            let mut o = vec![];
                            s.flat_targets(&r, &mut o)?;
                            Ok(o)
                        },
                        &move |_| {
                            let mut o = vec![];
                            for i in 0..nb {
                                o.push(Poly::int(f, v2.bit(i as u64) as u64));
                            }
                            for i in 0..nd {
                                let k = (nb + 2 * i) as u64;
                                o.push(Poly::int(f, v2.bit(k) as u64 + 2 * v2.bit(k + 1) as u64));
                            }
                            Exp { outs: o, asserts: vec![], unsat: false, free: true }
                        },
                    );
                }
            }
        }
        Ok(())
    }
    fn ordering_targets(&mut self, r: &V<'tcx>) -> R<Vec<V<'tcx>>> {
        let r = self.it.deref_all(r)?;
        let V::Adt(a) = &r else { return unsup("ordering") };
        let rustc_middle::ty::Adt(d, _) = a.ty.kind() else { return unsup("ordering") };
        let mut o = vec![];
        for n in ["lt", "eq", "gt"] {
            match d.non_enum_variant().fields.iter().position(|f| f.name.as_str() == n) {
                Some(k) => o.push(a.f[k].clone()),
                None => return unsup("OrderingTarget fields"),
            }
        }
        Ok(o)
    }
    pub fn check_curve_gadgets(&mut self) -> R<()> {
        for (c, inner) in self.curve_pairs()? {
            let g = self.gad(c, inner)?;
            let f = g.fid;
            let cx = self.curve_cx(inner)?;
            if cx.fid != f {
                return unsup("inner curve's base field");
            }
            let pd = self.find_adt("AffinePointTarget")?;
            let pty = self.ty_of(pd, &[inner]);
            use In::{C, D, S};
            let mk = |x: &V<'tcx>, y: &V<'tcx>| adt(pty, 0, vec![x.clone(), y.clone()]);
            let at = |n: &'static str| Poly::atom(f, name(n));
            let gen = {
                let v = self.it.assoc_const_of(inner, "GENERATOR_AFFINE")?;
                match self.point_of(&v, &Default::default())? {
                    Some(t) => Pt { inf: false, x: t.x, y: t.y },
                    None => return unsup("generator"),
                }
            };
            let un: Vec<(&str, Vec<In>)> = vec![("", vec![S("x1"), S("y1")]), (" of a constant", vec![C(gen.x.clone()), C(gen.y.clone())])];
            let bin: Vec<(&str, Vec<In>)> = vec![
                ("", vec![S("x1"), S("y1"), S("x2"), S("y2")]),
                (" constant left", vec![C(gen.x.clone()), C(gen.y.clone()), S("x2"), S("y2")]),
                (" constant right", vec![S("x1"), S("y1"), C(gen.x.clone()), C(gen.y.clone())]),
                (" shared ordinate", vec![S("x1"), S("y1"), S("x2"), D(1)]),
            ];
            let tgt = |s: &mut Self, r: &V<'tcx>| -> R<Vec<V<'tcx>>> {
                let mut o = vec![];
                s.flat_targets(r, &mut o)?;
                Ok(o)
            };
            for m in ["curve_neg", "curve_double"] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                for (label, ins) in &un {
                    let cx2 = &cx;
                    let this = self as *const Self;
                    let spec = move |p: &[Poly]| -> Exp {
                        let q = Pt { inf: false, x: p[0].clone(), y: p[1].clone() };
                        if m == "curve_neg" {
                            outs(vec![q.x, q.y.neg()])
                        } else {
                            let r = dbl(cx2.a.clone(), &q);
                            outs(vec![r.x, r.y])
                        }
                    };
                    let _ = this;
                    self.gadget_case(&g, m, label, &site, ins, &["y1"], &|s, b, t| {
                        let r = s.call(d, a, vec![b.clone(), mk(&t[0], &t[1])])?;
                        tgt(s, &r)
                    }, &spec);
                }
            }
            for m in ["curve_add", "curve_sub"] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                for (label, ins) in &bin {
                    self.gadget_case(&g, m, label, &site, ins, &[], &|s, b, t| {
                        let r = s.call(d, a, vec![b.clone(), mk(&t[0], &t[1]), mk(&t[2], &t[3])])?;
                        tgt(s, &r)
                    }, &|p| {
                        let y2 = if m == "curve_add" { p[3].clone() } else { p[3].neg() };
                        let l = y2.sub(&p[1]).mul(&p[2].sub(&p[0]).inv());
                        let x = l.mul(&l).sub(&p[0]).sub(&p[2]);
                        let y = l.mul(&p[0].sub(&x)).sub(&p[1]);
                        outs(vec![x, y])
                    });
                }
                // exceptional operands have no satisfying assignment
                for (label, ins) in [
                    (" equal points", vec![S("x1"), S("y1"), D(0), D(1)]),
                    (" equal abscissas", vec![S("x1"), S("y1"), D(0), S("y2")]),
                ] {
                    self.gadget_case(&g, m, label, &site, &ins, &[], &|s, b, t| {
                        let r = s.call(d, a, vec![b.clone(), mk(&t[0], &t[1]), mk(&t[2], &t[3])])?;
                        tgt(s, &r)
                    }, &|_| Exp { outs: vec![], asserts: vec![], unsat: true, free: false });
                }
            }
            let (d, a, site) = self.gadget_fn(&g, "curve_assert_valid")?;
            for (label, ins) in &un {
                let (ca, cb) = (cx.a.clone(), cx.b.clone());
                self.gadget_case(&g, "curve_assert_valid", label, &site, ins, &[], &|s, b, t| {
                    s.call(d, a, vec![b.clone(), mk(&t[0], &t[1])])?;
                    Ok(vec![])
                }, &|p| {
                    let w = p[1].mul(&p[1]).sub(&p[0].mul(&p[0]).mul(&p[0])).sub(&ca.mul(&p[0])).sub(&cb);
                    if w.is_zero() { outs(vec![]) } else { asserts(vec![w]) }
                });
            }
            let (d, a, site) = self.gadget_fn(&g, "copy_curve")?;
            for (label, ins) in &bin {
                self.gadget_case(&g, "copy_curve", label, &site, ins, &[], &|s, b, t| {
                    s.call(d, a, vec![b.clone(), mk(&t[0], &t[1]), mk(&t[2], &t[3])])?;
                    Ok(vec![])
                }, &|p| {
                    let v: Vec<Poly> = [p[0].sub(&p[2]), p[1].sub(&p[3])].into_iter().filter(|q| !q.is_zero()).collect();
                    asserts(v)
                });
            }
            let (d, a, site) = self.gadget_fn(&g, "constant_affine_point")?;
            let v = self.it.assoc_const_of(inner, "GENERATOR_AFFINE")?;
            self.gadget_case(&g, "constant_affine_point", "", &site, &[], &[], &|s, b, _| {
                let r = s.call(d, a, vec![b.clone(), v.clone()])?;
                tgt(s, &r)
            }, &|_| outs(vec![gen.x.clone(), gen.y.clone()]));
            let _ = at;
        }
        Ok(())
    }
    /// specification of the permutation: (inverse S-box, mixing, constants, S-box, mixing, constants) per round
    fn spec_rescue(&mut self, st: &[Poly], alpha: u32, mds: &[Vec<BigUint>], rc: &[(Vec<Poly>, Vec<Poly>)]) -> Vec<Poly> {
        let mix = |v: &[Poly], k: &[Poly]| -> Vec<Poly> {
            (0..v.len())
                .map(|r| {
                    let mut e = k[r].clone();
                    for c in 0..v.len() {
                        e = e.add(&v[c].scale(&mds[r][c]));
                    }
                    e
                })
                .collect()
        };
        let mut st = st.to_vec();
        for (a, b) in rc {
            st = mix(&st.iter().map(|x| root(x, alpha as i32)).collect::<Vec<_>>(), a);
            st = mix(&st.iter().map(|x| x.pow(alpha as u64)).collect::<Vec<_>>(), b);
        }
        st
    }
    fn rescue_params(&mut self, t: Ty<'tcx>, w: usize, sec: usize) -> R<(u32, Vec<Vec<BigUint>>, Vec<(Vec<Poly>, Vec<Poly>)>)> {
        let ga = self.tcx.mk_args(&[t.into()]);
        let alpha = self.fconst(t, "ALPHA")?;
        let alpha = match num_traits::ToPrimitive::to_u32(&alpha) {
            Some(a) if a < 64 => a,
            _ => return unsup("large S-box exponent"),
        };
        let mm = self.find_fn("mds_matrix")?;
        let get = self.method("MdsMatrix", "get")?;
        let m = self.call(mm, ga, vec![crate::val::V::Int(w as u128)])?;
        let mp = ptr_to(m);
        let mut mat = vec![];
        for r in 0..w {
            let mut row = vec![];
            for c in 0..w {
                let v = self.call(get, ga, vec![mp.clone(), crate::val::V::Int(r as u128), crate::val::V::Int(c as u128)])?;
                match v.poly()?.as_const() {
                    Some(c) => row.push(c),
                    None => return unsup("symbolic matrix entry"),
                }
            }
            mat.push(row);
        }
        let gc = self.find_fn("generate_rescue_constants")?;
        let r = self.call(gc, ga, vec![crate::val::V::Int(w as u128), crate::val::V::Int(sec as u128)])?;
        let mut rc = vec![];
        for x in self.it.seq_items(&r)?.iter() {
            let (a, b) = (x.field(0)?, x.field(1)?);
            rc.push((self.polys(&a)?, self.polys(&b)?));
        }
        Ok((alpha, mat, rc))
    }
    pub fn check_rescue(&mut self) -> R<()> {
        self.it.draw_const = false;
        let r = self.check_rescue_();
        self.it.draw_const = false;
        r
    }
    fn check_rescue_(&mut self) -> R<()> {
        let w = self.const_usize("RESCUE_SPONGE_WIDTH")?;
        let rate = w - 1;
        let sec = 128usize;
        let int = |i: usize| crate::val::V::Int(i as u128);
        let mut halo = vec![];
        for (c, _) in self.curve_pairs()? {
            halo.push(self.scalar(c)?);
        }
        for t in self.all_fields()? {
            let fnm = self.it.head(t);
            let perm = self.find_fn("rescue::rescue_permutation")?;
            let site = self.site(perm);
            self.it.draw_const = false;
            let (f2, s2) = (fnm.clone(), site.clone());
            self.unit(&format!("{} rescue constants", fnm), &site, |s| {
                for (wd, sc, least) in [(w, sec, 16usize), (w, 80, 10), (w, 256, 32), (3, 128, 22), (8, 128, 10)] {
                    let (_, _, rc) = s.rescue_params(t, wd, sc)?;
                    let (_, _, rc2) = s.rescue_params(t, wd, sc)?;
                    let all: Vec<Poly> = rc.iter().flat_map(|x| x.0.iter().chain(x.1.iter()).cloned()).collect();
                    let all2: Vec<Poly> = rc2.iter().flat_map(|x| x.0.iter().chain(x.1.iter()).cloned()).collect();
                    let k = format!("{} constants width {} security {}", f2, wd, sc);
                    s.check(&format!("{} deterministic", k), &s2, "the round constants are the same on every call", all == all2, || "they differ between calls".into());
                    s.check(&format!("{} shape", k), &s2, "every round has two full vectors of constants", rc.iter().all(|x| x.0.len() == wd && x.1.len() == wd), || "missing constants".into());
                    s.check(&format!("{} rounds", k), &s2, "at least max(10, security / (2 width)) rounds", rc.len() >= least, || format!("{} rounds", rc.len()));
                    let set: BTreeSet<_> = all.iter().map(|p| p.show()).collect();
                    s.check(&format!("{} fresh", k), &s2, "round constants are distinct draws", set.len() == all.len() && all.iter().all(|p| p.as_const().is_none()), || "repeated or fixed constants".into());
                }
                Ok(())
            });
            self.it.draw_const = true;
            let (f2, s2) = (fnm.clone(), site.clone());
            self.unit(&format!("{} rescue permutation", fnm), &site, |s| {
                let (alpha, mds, rc) = s.rescue_params(t, w, sec)?;
                let fid = s.fid_of(t)?;
                let ga = s.tcx.mk_args(&[t.into()]);
                let x = fvec(fid, "x", w);
                let r = s.call(perm, ga, vec![fref(&x), int(sec)])?;
                let r = s.polys(&r)?;
                let e = s.spec_rescue(&x, alpha, &mds, &rc);
                s.check(&format!("{} permutation length", f2), &s2, "the permutation keeps the state width", r.len() == w, || r.len().to_string());
                for i in 0..w.min(r.len()) {
                    s.check(&format!("{} permutation {}", f2, i), &s2, "the permutation is the specified sequence of inverse S-box, mixing, constants, S-box, mixing, constants", r[i].sub(&e[i]).is_zero(), || "differs".into());
                }
                Ok(())
            });
            let sp = self.find_fn("rescue::rescue_sponge")?;
            let site = self.site(sp);
            if !halo.contains(&t) {
                continue;
            }
            for k in 0..=7usize {
                let (f2, s2) = (fnm.clone(), site.clone());
                self.unit(&format!("{} rescue sponge of {}", fnm, k), &site, |s| {
                    let (alpha, mds, rc) = s.rescue_params(t, w, sec)?;
                    let fid = s.fid_of(t)?;
                    let ga = s.tcx.mk_args(&[t.into()]);
                    let x = fvec(fid, "x", k);
                    let e = s.spec_sponge(fid, &x, 7, rate, alpha, &mds, &rc);
                    for n in if k == 1 { vec![1usize, 2, 3, 4, 6] } else { vec![7usize] } {
                        let r = s.call(sp, ga, vec![fseq(&x), int(n), int(sec)])?;
                        let r = s.polys(&r)?;
                        s.check(&format!("{} sponge {}->{}", f2, k, n), &s2, "the sponge adds each input block to the rate part, permutes after each block, and squeezes the rate part in order", r.len() == n && r.iter().zip(&e).all(|(a, b)| a.sub(b).is_zero()), || {
                            format!("output {:?} differs from the specification", r.iter().zip(&e).position(|(a, b)| !a.sub(b).is_zero()))
                        });
                    }
                    for n in if k % 2 == 0 && k < 5 { 1..=3usize } else { 1..=0 } {
                        let d = s.find_fn(&format!("rescue::rescue_hash_n_to_{}", n))?;
                        let r = s.call(d, ga, vec![fseq(&x), int(sec)])?;
                        let r = if n == 1 { vec![r.poly()?] } else { (0..n).map(|i| r.field(i)?.poly()).collect::<R<Vec<_>>>()? };
                        let st = s.site(d);
                        s.check(&format!("{} hash {}->{}", f2, k, n), &st, "the fixed-output hashes are prefixes of the sponge output", r.len() == n && r.iter().zip(&e).all(|(a, b)| a.sub(b).is_zero()), || "differs".into());
                    }
                    if k == 1 {
                        let d = s.find_fn("rescue_hash_1_to_1")?;
                        let r = s.call(d, ga, vec![crate::val::V::F(x[0].clone()), int(sec)])?.poly()?;
                        let st = s.site(d);
                        s.check(&format!("{} hash 1->1", f2), &st, "hashing one element is the sponge of one element", r.sub(&e[0]).is_zero(), || "differs".into());
                    }
                    Ok(())
                });
            }
        }
        // matrices of different fields and sizes do not leak into each other through the shared cache
        let mm = self.find_fn("mds_matrix")?;
        let site = self.site(mm);
        let s2 = site.clone();
        self.unit("mixing matrix cache", &site, |s| {
            let fields = s.all_fields()?;
            let mut first = vec![];
            for &t in &fields {
                s.it.reset();
                first.push((s.rescue_params(t, w, sec)?.1, s.rescue_params(t, w - 1, sec)?.1));
            }
            s.it.reset();
            for round in 0..2 {
                for (i, &t) in fields.iter().enumerate() {
                    let a = s.rescue_params(t, w, sec)?.1;
                    let b = s.rescue_params(t, w - 1, sec)?.1;
                    let nm = s.it.head(t);
                    s.check(&format!("mixing matrix of {} after others {}", nm, round), &s2, "a field's mixing matrix does not depend on which matrices were requested before", a == first[i].0 && b == first[i].1, || "the cached matrix of another field or size is returned".into());
                }
            }
            Ok(())
        });
        // in-circuit versions
        for (c, inner) in self.curve_pairs()? {
            let g = self.gad(c, inner)?;
            let f = g.fid;
            let sf = self.scalar(c)?;
            use In::*;
            let (d, a, site) = self.gadget_fn(&g, "rescue_permutation")?;
            self.it.reset();
            let (alpha, mds, rc) = self.rescue_params(sf, w, sec)?;
            let this = std::cell::RefCell::new(());
            let _ = this;
            for (label, ins) in [
                ("", vec![S("a"), S("b"), S("c"), S("d")]),
                (" with constants", vec![S("a"), C(Poly::zero(f)), C(Poly::one(f)), C(Poly::zero(f))]),
                (" of equal inputs", vec![S("a"), D(0), D(0), S("d")]),
            ] {
                let e: Vec<Poly> = {
                    let p: Vec<Poly> = ins.iter().map(|i| match i { S(n) => Poly::atom(f, name(n)), C(p) => p.clone(), _ => Poly::atom(f, name("a")) }).collect();
                    self.spec_rescue(&p, alpha, &mds, &rc)
                };
                self.gadget_case(
                    &g,
                    "rescue_permutation",
                    label,
                    &site,
                    &ins,
                    &[],
                    &|s, b, t| {
                        let r = s.call(d, a, vec![b.clone(), sref(t.to_vec())])?;
                        let mut o = vec![];
                        s.flat_targets(&r, &mut o)?;
                        Ok(o)
                    },
                    &|_| outs(e.clone()),
                );
            }
            let nm = ["a", "b", "c", "d", "e", "f", "g"];
            for (m, no) in [("rescue_hash_n_to_1", 1usize), ("rescue_hash_n_to_2", 2), ("rescue_hash_n_to_3", 3), ("rescue_sponge", 4)] {
                let (d, a, site) = self.gadget_fn(&g, m)?;
                for k in [0usize, 1, 2, 3, 4, 7] {
                    if (no < 4 && k % 2 == 1) || (k > 4 && no < 4) {
                        continue;
                    }
                    let ins: Vec<In> = nm[..k].iter().map(|x| S(x)).collect();
                    let p: Vec<Poly> = nm[..k].iter().map(|x| Poly::atom(f, name(x))).collect();
                    let e = self.spec_sponge(f, &p, no, rate, alpha, &mds, &rc);
                    self.gadget_case(
                        &g,
                        m,
                        &format!(" of {}", k),
                        &site,
                        &ins,
                        &[],
                        &|s, b, t| {
                            let mut v = vec![b.clone(), sref(t.to_vec())];
                            if m == "rescue_sponge" {
                                v.push(crate::val::V::Int(no as u128));
                            }
                            let r = s.call(d, a, v)?;
                            let mut o = vec![];
                            s.flat_targets(&r, &mut o)?;
                            Ok(o)
                        },
                        &|_| outs(e.clone()),
                    );
                }
            }
        }
        Ok(())
    }
    fn spec_sponge(&mut self, fid: FieldId, x: &[Poly], n: usize, rate: usize, alpha: u32, mds: &[Vec<BigUint>], rc: &[(Vec<Poly>, Vec<Poly>)]) -> Vec<Poly> {
        let mut st = vec![Poly::zero(fid); rate + 1];
        for ch in x.chunks(rate) {
            for (i, v) in ch.iter().enumerate() {
                st[i] = st[i].add(v);
            }
            st = self.spec_rescue(&st, alpha, mds, rc);
        }
        let mut o = vec![];
        loop {
            for i in 0..rate {
                o.push(st[i].clone());
                if o.len() == n {
                    return o;
                }
            }
            st = self.spec_rescue(&st, alpha, mds, rc);
        }
    }
    /// index of a wire named by an associated constant (or a function of an index) of the gate
    fn gwire(&mut self, g: &GateTy<'tcx>, n: &str) -> R<usize> {
        self.it.assoc_const_of(g.ty, n)?.usz()
    }
    fn gwire_i(&mut self, g: &GateTy<'tcx>, n: &str, i: usize) -> R<usize> {
        let d = self.method(&g.name, n)?;
        let rustc_middle::ty::Adt(_, a) = g.ty.kind() else { return unsup("gate type") };
        self.call(d, a, vec![crate::val::V::Int(i as u128)])?.usz()
    }
    /// every gate's constraints mean what the gate is for
    pub fn check_gate_semantics(&mut self) -> R<()> {
        for (c, inner) in self.curve_pairs()? {
            let cn = self.it.head(c);
            for g in self.gate_types(c, inner)? {
                let d = self.trait_item("Gate", "evaluate_unfiltered")?;
                let site = self.impl_site(d, g.targs);
                let key = format!("{}<{}> meaning", g.name, cn);
                let (k2, s2) = (key.clone(), site.clone());
                self.unit(&key, &site, move |s| s.gate_meaning(&g, &k2, &s2));
            }
        }
        Ok(())
    }
    fn gate_meaning(&mut self, g: &GateTy<'tcx>, key: &str, site: &str) -> R<()> {
        let sf = self.scalar(g.c)?;
        let fid = self.fid_of(sf)?;
        let k = self.const_usize("NUM_CONSTANTS")?;
        let n = self.const_usize("NUM_WIRES")?;
        let routed = self.const_usize("NUM_ROUTED_WIRES")?;
        let width = self.const_usize("RESCUE_SPONGE_WIDTH")?;
        let pre = self.gate_prefix(g)?.len();
        let mut cons = fvec(fid, "c", k);
        for (i, b) in self.gate_prefix(g)?.iter().enumerate() {
            cons[i] = Poly::int(fid, *b as u64);
        }
        let nat = self.gate_native(g, "evaluate_unfiltered", &cons)?;
        let k_ = |i: usize| Poly::atom(fid, name(&format!("c{}", pre + i)));
        let int = |i: u64| Poly::int(fid, i);
        let one = Poly::one(fid);
        let wat = |pre: &str, i: usize| name(&format!("{}{}", pre, i));
        // scenarios: (label, inputs with values, outputs with specified values)
        type Case = (String, Vec<(TermId, Poly)>, Vec<(TermId, Poly)>);
        let mut cases: Vec<Case> = vec![];
        // wires whose only admissible values are given
        let mut domains: Vec<(TermId, Vec<u64>)> = vec![];
        let at = |t: TermId| Poly::atom(fid, t);
        match g.name.as_str() {
            "BufferGate" => {
                self.check(&format!("{} empty", key), site, "a buffer row is unconstrained", nat.iter().all(|p| p.is_zero()), || "constrained".into());
            }
            "ConstantGate" => {
                let o = wat("L", self.gwire(g, "WIRE_OUTPUT")?);
                cases.push((String::new(), vec![], vec![(o, k_(0))]));
            }
            "ArithmeticGate" => {
                let a = wat("L", self.gwire(g, "WIRE_MULTIPLICAND_0")?);
                let b = wat("L", self.gwire(g, "WIRE_MULTIPLICAND_1")?);
                let d = wat("L", self.gwire(g, "WIRE_ADDEND")?);
                let o = wat("L", self.gwire(g, "WIRE_OUTPUT")?);
                let v = k_(0).mul(&at(a)).mul(&at(b)).add(&k_(1).mul(&at(d)));
                cases.push((String::new(), vec![(a, at(a)), (b, at(b)), (d, at(d))], vec![(o, v)]));
            }
            "PublicInputGate" => {
                let mut ins = vec![];
                let mut o = vec![];
                for i in routed..n {
                    let w = wat("L", i);
                    ins.push((w, at(w)));
                    o.push((wat("R", i - routed), at(w)));
                }
                cases.push((String::new(), ins, o));
            }
            "Base4SumGate" => {
                let a = wat("L", self.gwire(g, "WIRE_ACC_OLD")?);
                let o = wat("L", self.gwire(g, "WIRE_ACC_NEW")?);
                let m = self.gwire(g, "NUM_LIMBS")?;
                let mut ins = vec![(a, at(a))];
                let mut v = at(a);
                for i in 0..m {
                    let l = wat("L", self.gwire_i(g, "wire_limb", i)?);
                    ins.push((l, at(l)));
                    v = v.mul(&int(4)).add(&at(l));
                    domains.push((l, vec![0, 1, 2, 3]));
                }
                cases.push((String::new(), ins, vec![(o, v)]));
            }
            "RescueStepAGate" | "RescueStepBGate" => {
                let (alpha, mds, _) = self.rescue_params(sf, width, 128)?;
                let a_step = g.name == "RescueStepAGate";
                let mut ins = vec![];
                let mut st = vec![];
                let mut o = vec![];
                for i in 0..width {
                    let w = wat("L", self.gwire_i(g, "wire_acc", i)?);
                    ins.push((w, at(w)));
                    st.push(if a_step { root(&at(w), alpha as i32) } else { at(w).pow(alpha as u64) });
                }
                for i in 0..width {
                    let mut e = k_(i);
                    for j in 0..width {
                        e = e.add(&st[j].scale(&mds[i][j]));
                    }
                    o.push((wat("R", self.gwire_i(g, "wire_acc", i)?), e));
                }
                cases.push((String::new(), ins, o));
            }
            "CurveDblGate" => {
                let cx = self.curve_cx(g.inner)?;
                let x = wat("L", self.gwire(g, "WIRE_X_OLD")?);
                let y = wat("L", self.gwire(g, "WIRE_Y_OLD")?);
                let xo = wat("L", self.gwire(g, "WIRE_X_NEW")?);
                let yo = wat("L", self.gwire(g, "WIRE_Y_NEW")?);
                let r = dbl(cx.a.clone(), &Pt { inf: false, x: at(x), y: at(y) });
                cases.push((String::new(), vec![(x, at(x)), (y, at(y))], vec![(xo, r.x), (yo, r.y)]));
            }
            "CurveAddGate" => {
                let x1 = self.gwire(g, "WIRE_GROUP_ACC_X")?;
                let y1 = self.gwire(g, "WIRE_GROUP_ACC_Y")?;
                let x2 = wat("L", self.gwire(g, "WIRE_ADDEND_X")?);
                let y2 = wat("L", self.gwire(g, "WIRE_ADDEND_Y")?);
                let so = wat("L", self.gwire(g, "WIRE_SCALAR_ACC_OLD")?);
                let sn = wat("L", self.gwire(g, "WIRE_SCALAR_ACC_NEW")?);
                let b = wat("L", self.gwire(g, "WIRE_SCALAR_BIT")?);
                domains.push((b, vec![0, 1]));
                let (lx, ly) = (wat("L", x1), wat("L", y1));
                for bit in 0..2u64 {
                    let ins = vec![(lx, at(lx)), (ly, at(ly)), (x2, at(x2)), (y2, at(y2)), (so, at(so)), (b, int(bit))];
                    let r = if bit == 1 { chord(&at(lx), &at(ly), &at(x2), &at(y2)) } else { (at(lx), at(ly)) };
                    cases.push((format!(" bit {}", bit), ins, vec![(wat("R", x1), r.0), (wat("R", y1), r.1), (sn, at(so).mul(&int(2)).add(&int(bit)))]));
                }
            }
            "CurveEndoGate" => {
                let x1 = self.gwire(g, "WIRE_GROUP_ACC_X")?;
                let y1 = self.gwire(g, "WIRE_GROUP_ACC_Y")?;
                let x2 = wat("L", self.gwire(g, "WIRE_ADDEND_X")?);
                let y2 = wat("L", self.gwire(g, "WIRE_ADDEND_Y")?);
                let us = self.gwire(g, "WIRE_SCALAR_ACC_UNSIGNED")?;
                let b0 = wat("L", self.gwire(g, "WIRE_SCALAR_BIT_0")?);
                let b1 = wat("L", self.gwire(g, "WIRE_SCALAR_BIT_1")?);
                domains.push((b0, vec![0, 1]));
                domains.push((b1, vec![0, 1]));
                let zeta = self.fconst_of(g.inner, "ZETA")?;
                let zeta = Poly::constant(fid, zeta);
                let (lx, ly) = (wat("L", x1), wat("L", y1));
                let lu = wat("L", us);
                for i in 0..4u64 {
                    let (v0, v1) = (i & 1, i >> 1);
                    let ins = vec![(lx, at(lx)), (ly, at(ly)), (x2, at(x2)), (y2, at(y2)), (lu, at(lu)), (b0, int(v0)), (b1, int(v1))];
                    let ex = if v1 == 1 { at(x2).mul(&zeta) } else { at(x2) };
                    let ey = if v0 == 1 { at(y2) } else { at(y2).neg() };
                    let r = chord(&at(lx), &at(ly), &ex, &ey);
                    cases.push((
                        format!(" bits {}{}", v1, v0),
                        ins,
                        vec![(wat("R", x1), r.0), (wat("R", y1), r.1), (wat("B", us), at(lu).mul(&int(4)).add(&int(2 * v1 + v0)))],
                    ));
                }
            }
            o => return unsup(format!("no meaning is specified for gate {}", o)),
        }
        let _ = one;
        for (u, dom) in &domains {
            let p = nat.iter().find(|p| {
                let a = p.atoms();
                a.len() == 1 && a.contains(u)
            });
            let r = p.and_then(|p| small_roots(p, *u));
            self.check(&format!("{} domain of {}", key, show(*u)), site, "the wire is constrained to its range", r.as_ref() == Some(dom), || match p {
                Some(p) => format!("constraint {} has roots {:?}", p.show(), r),
                None => "unconstrained".into(),
            });
        }
        let consts: BTreeSet<TermId> = cons.iter().flat_map(|p| p.atoms()).collect();
        for (label, ins, o) in cases {
            let mut sv = Solved::default();
            for (t, p) in &ins {
                sv.val.insert(*t, p.clone());
            }
            // a doubling needs a nonzero ordinate
            let cs: Vec<(usize, usize, Poly)> = nat.iter().enumerate().map(|(i, p)| (0, i, p.clone())).collect();
            let known: BTreeSet<TermId> = ins.iter().map(|x| x.0).collect();
            let sel: BTreeSet<TermId> = domains.iter().map(|x| x.0).collect();
            let _ = sel;
            solve_core(fid, cs, &|a| !consts.contains(&a) && matches!(term(a), Term::Name(_)) && show(a).starts_with(['L', 'R', 'B']) && !known.contains(&a), &mut sv);
            for (t, want) in &o {
                let v = sv.val.get(t).cloned();
                self.check(
                    &format!("{}{} output {}", key, label, show(*t)),
                    site,
                    "given the inputs, the gate's constraints force the output to the gate's documented function",
                    v.as_ref().map(|v| v.sub(want).is_zero()) == Some(true),
                    || match v {
                        Some(v) => format!("forced to {} instead of {}", v.show(), want.show()),
                        None => "left free".into(),
                    },
                );
            }
            let dom: BTreeSet<TermId> = domains.iter().map(|d| d.0).collect();
            for (_, j, p) in &sv.asserts {
                let only = p.atoms();
                let ok = only.len() == 1 && dom.contains(only.iter().next().unwrap());
                self.check(&format!("{}{} restricts only what it should", key, label), site, "the gate restricts its inputs only to their ranges", ok, || format!("constraint {} forces {} = 0", j, p.show()));
            }
        }
        Ok(())
    }
    pub fn fconst_of(&mut self, c: Ty<'tcx>, n: &str) -> R<BigUint> {
        let bf = self.base(c)?;
        let v = self.it.assoc_const_of(c, n)?;
        match self.as_field(&v, bf)?.as_const() {
            Some(c) => Ok(c),
            None => unsup("symbolic constant"),
        }
    }
}
pub fn dbl(a: Poly, p: &Pt) -> Pt {
    let x2 = p.x.mul(&p.x);
    let l = x2.add(&x2).add(&x2).add(&a).mul(&p.y.add(&p.y).inv());
    let x = l.mul(&l).sub(&p.x).sub(&p.x);
    let y = l.mul(&p.x.sub(&x)).sub(&p.y);
    Pt { inf: false, x, y }
}
pub fn chord(x1: &Poly, y1: &Poly, x2: &Poly, y2: &Poly) -> (Poly, Poly) {
    let l = y2.sub(y1).mul(&x2.sub(x1).inv());
    let x = l.mul(&l).sub(x1).sub(x2);
    let y = l.mul(&x1.sub(&x)).sub(y1);
    (x, y)
}
#[allow(dead_code)]
fn _u(_: BTreeSet<u8>, _: Pt) {}
