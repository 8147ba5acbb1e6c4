//! Gate properties: the native and the in-circuit constraint systems agree; filters are disjoint; degrees
//! fit; honest generators satisfy the constraints.
use crate::base::*;
use crate::circ::*;
use crate::poly::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Ty};
use std::collections::{BTreeSet, HashMap};

pub struct GateTy<'tcx> {
    pub name: String,
    pub ty: Ty<'tcx>,
    pub c: Ty<'tcx>,
    pub inner: Ty<'tcx>,
    pub targs: GenericArgsRef<'tcx>, // [Self, C] for trait items
}

/// the small roots of a univariate polynomial, if it splits into distinct small roots
pub fn small_roots(p: &Poly, u: TermId) -> Option<Vec<u64>> {
    let deg = p.degree_in(&|a| a == u);
    let mut v = vec![];
    for r in 0..17u64 {
        let mut m = HashMap::new();
        m.insert(u, Poly::int(p.fid, r));
        if p.subst(&m).t.is_empty() {
            v.push(r)
        }
    }
    if v.len() as i32 == deg { Some(v) } else { None }
}

impl<'tcx> Ctx<'tcx> {
    pub fn gate_types(&mut self, c: Ty<'tcx>, inner: Ty<'tcx>) -> R<Vec<GateTy<'tcx>>> {
        let tr = self.find_trait("Gate")?;
        let mut out = vec![];
        for i in self.tcx.all_impls(tr) {
            let trf = self.tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            let cparam = trf.args.type_at(1);
            let args = ty::GenericArgs::for_item(self.tcx, i, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
                _ => {
                    if matches!(cparam.kind(), ty::Param(q) if q.index == p.index) { c.into() } else { inner.into() }
                }
            });
            let st = self.tcx.type_of(i).instantiate(self.tcx, args).skip_norm_wip();
            let targs = self.tcx.mk_args(&[st.into(), c.into()]);
            out.push(GateTy { name: self.it.head(st), ty: st, c, inner, targs });
        }
        out.sort_by(|a, b| a.name.cmp(&b.name));
        Ok(out)
    }
    pub fn gate_prefix(&mut self, g: &GateTy<'tcx>) -> R<Vec<bool>> {
        let d = self.trait_item("Gate", "PREFIX")?;
        let v = self.it.eval_const_def(d, g.targs, None)?;
        let v = self.it.seq_items(&v)?;
        v.iter().map(|x| Ok(x.int()? == 1)).collect()
    }
    pub fn fid_of(&mut self, t: Ty<'tcx>) -> R<FieldId> {
        match self.it.field_ty(t) {
            Some(f) => Ok(f),
            None => unsup(format!("{} is not a field", t)),
        }
    }
    pub fn polys(&mut self, v: &V<'tcx>) -> R<Vec<Poly>> {
        let s = self.it.seq_items(v)?;
        let mut out = vec![];
        for x in s.iter() {
            let x = self.it.deref_all(x)?;
            out.push(x.poly()?);
        }
        Ok(out)
    }
    /// native constraints over atoms c*, L*, R*, B*
    pub fn gate_native(&mut self, g: &GateTy<'tcx>, m: &str, consts: &[Poly]) -> R<Vec<Poly>> {
        let sf = self.scalar(g.c)?;
        let fid = self.fid_of(sf)?;
        let n = self.const_usize("NUM_WIRES")?;
        let d = self.trait_item("Gate", m)?;
        let r = self.call(d, g.targs, vec![fref(consts), fref(&fvec(fid, "L", n)), fref(&fvec(fid, "R", n)), fref(&fvec(fid, "B", n))])?;
        self.polys(&r)
    }
    /// the same constraints as computed by the circuit the recursive version adds to a builder
    pub fn in_circuit(&mut self, d: DefId, targs: GenericArgsRef<'tcx>, c: Ty<'tcx>, inner: Ty<'tcx>) -> R<(Vec<Poly>, Solved, usize)> {
        let sf = self.scalar(c)?;
        let fid = self.fid_of(sf)?;
        let n = self.const_usize("NUM_WIRES")?;
        let k = self.const_usize("NUM_CONSTANTS")?;
        let b = self.new_builder(c)?;
        let ct = self.targets(&b, c, k)?;
        let lt = self.targets(&b, c, n)?;
        let rt = self.targets(&b, c, n)?;
        let bt = self.targets(&b, c, n)?;
        let r = self.call(d, targs, vec![b.clone(), sref(ct.clone()), sref(lt.clone()), sref(rt.clone()), sref(bt.clone())])?;
        let outs = self.it.seq_items(&r)?.to_vec();
        let mut known = vec![];
        for (ts, pre) in [(ct, "c"), (lt, "L"), (rt, "R"), (bt, "B")] {
            for (t, p) in ts.into_iter().zip(fvec(fid, pre, k.max(n))) {
                known.push((t, p))
            }
        }
        let mut cc = self.circ(&b, c, inner)?;
        let s = self.solve(&mut cc, &known)?;
        let mut ps = vec![];
        for o in &outs {
            let key = self.key(o)?;
            match s.val.get(&cc.find(key)) {
                Some(p) => ps.push(p.clone()),
                None => return unsup(format!("output {} of the in-circuit evaluation is not determined by its constraints", show(key))),
            }
        }
        Ok((ps, s, cc.rows.len()))
    }

    pub fn check_gate_siblings(&mut self) -> R<()> {
        for (c, inner) in self.curve_pairs()? {
            let cn = self.it.head(c);
            for g in self.gate_types(c, inner)? {
                let d = self.trait_item("Gate", "evaluate_unfiltered_recursively")?;
                let site = self.impl_site(d, g.targs);
                let key = format!("{}<{}>", g.name, cn);
                let k2 = key.clone();
                let s2 = site.clone();
                self.unit(&key, &site, move |s| {
                    let sf = s.scalar(c)?;
                    let fid = s.fid_of(sf)?;
                    let k = s.const_usize("NUM_CONSTANTS")?;
                    let cons = fvec(fid, "c", k);
                    let nat = s.gate_native(&g, "evaluate_unfiltered", &cons)?;
                    let (rec, sol, _) = s.in_circuit(d, g.targs, c, inner)?;
                    s.check(&format!("{} constraint count", k2), &s2, "native and in-circuit constraint lists have equal length", nat.len() == rec.len(), || {
                        format!("native {} in-circuit {}", nat.len(), rec.len())
                    });
                    for (i, (a, b)) in nat.iter().zip(rec.iter()).enumerate() {
                        let diff = a.sub(b);
                        s.check(&format!("{} constraint {}", k2, i), &s2, "native constraint polynomial = in-circuit constraint polynomial", diff.is_zero(), || {
                            format!("native: {}  in-circuit: {}", a.show(), b.show())
                        });
                    }
                    s.check(&format!("{} no stray assertion", k2), &s2, "evaluating a constraint in-circuit restricts nothing", sol.asserts.is_empty(), || {
                        format!("the evaluation circuit constrains its inputs: {}", sol.asserts[0].2.show())
                    });
                    Ok(())
                });
            }
        }
        Ok(())
    }

    fn gate_consts(&mut self, g: &GateTy<'tcx>, fid: FieldId) -> R<Vec<Poly>> {
        let k = self.const_usize("NUM_CONSTANTS")?;
        let pre = self.gate_prefix(g)?;
        let mut cons = fvec(fid, "c", k);
        for (i, b) in pre.iter().enumerate() {
            cons[i] = Poly::int(fid, *b as u64);
        }
        Ok(cons)
    }
    pub fn combined(&mut self, c: Ty<'tcx>, inner: Ty<'tcx>, consts: &[Poly]) -> R<Vec<Poly>> {
        let sf = self.scalar(c)?;
        let fid = self.fid_of(sf)?;
        let n = self.const_usize("NUM_WIRES")?;
        let d = self.find_fn("gates::evaluate_all_constraints")?;
        let a = self.args_for(d, c, inner, &[]);
        let r = self.call(d, a, vec![fref(consts), fref(&fvec(fid, "L", n)), fref(&fvec(fid, "R", n)), fref(&fvec(fid, "B", n))])?;
        self.polys(&r)
    }

    /// the unified constraint set: native = in-circuit, selects exactly the active gate, bounded degree
    pub fn check_gate_combined(&mut self, rec: bool) -> R<()> {
        for (c, inner) in self.curve_pairs()? {
            let cn = self.it.head(c);
            let d = self.find_fn("gates::evaluate_all_constraints")?;
            let dr = self.find_fn("gates::evaluate_all_constraints_recursively")?;
            let site = self.site(d);
            let siter = self.site(dr);
            let sf = self.scalar(c)?;
            let fid = self.fid_of(sf)?;
            let k = self.const_usize("NUM_CONSTANTS")?;
            let (cn1, siter1) = (cn.clone(), siter.clone());
            if rec {
            self.unit(&format!("unified constraints<{}> in-circuit", cn), &siter, move |s| {
                let nat = s.combined(c, inner, &fvec(fid, "c", k))?;
                let a = s.args_for(dr, c, inner, &[]);
                let (rec, sol, _) = s.in_circuit(dr, a, c, inner)?;
                s.check(&format!("unified constraints<{}> count", cn1), &siter1, "the native and in-circuit unified constraint lists have equal length", nat.len() == rec.len(), || {
                    format!("native {} in-circuit {}", nat.len(), rec.len())
                });
                for (i, (a, b)) in nat.iter().zip(rec.iter()).enumerate() {
                    s.check(
                        &format!("unified constraints<{}> {}", cn1, i),
                        &siter1,
                        "native unified constraint polynomial = in-circuit unified constraint polynomial, in all constants and wires",
                        a.sub(b).is_zero(),
                        || format!("difference: {}", a.sub(b).show()),
                    );
                }
                s.check(&format!("unified constraints<{}> no stray assertion", cn1), &siter1, "evaluating the constraints in-circuit restricts nothing", sol.asserts.is_empty(), || {
                    sol.asserts[0].2.show()
                });
                Ok(())
            });
            continue;
            }
            let (cn1, site1) = (cn.clone(), site.clone());
            self.unit(&format!("unified constraints<{}> degree", cn), &site, move |s| {
                let q = s.const_usize("QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER")? as i32;
                let nat = s.combined(c, inner, &fvec(fid, "c", k))?;
                for (i, p) in nat.iter().enumerate() {
                    let deg = p.degree_in(&|_| true);
                    s.check(
                        &format!("unified constraints<{}> degree {}", cn1, i),
                        &site1,
                        "total degree in constants and wires <= quotient multiplier + 1",
                        deg <= q + 1,
                        || format!("degree {} > {}", deg, q + 1),
                    );
                }
                Ok(())
            });
            for g in self.gate_types(c, inner)? {
                let key = format!("{}<{}> selection", g.name, cn);
                let (key1, site1) = (key.clone(), site.clone());
                self.unit(&key, &site, move |s| {
                    let cons = s.gate_consts(&g, fid)?;
                    let nat = s.gate_native(&g, "evaluate_unfiltered", &cons)?;
                    let all = s.combined(c, inner, &cons)?;
                    s.check(&format!("{} complete", key1), &site1, "the unified set has room for every constraint of the gate", all.len() >= nat.len(), || format!("{} < {}", all.len(), nat.len()));
                    for (i, p) in all.iter().enumerate() {
                        let want = nat.get(i).cloned().unwrap_or(Poly::zero(fid));
                        s.check(
                            &format!("{} {}", key1, i),
                            &site1,
                            "with a gate's own prefix constants the unified constraint set is exactly that gate's constraint set",
                            p.sub(&want).is_zero(),
                            || format!("unified: {}  gate: {}", p.show(), want.show()),
                        );
                    }
                    Ok(())
                });
            }
            // prefixes
            let key = format!("prefixes<{}>", cn);
            let (key1, site1) = (key.clone(), site.clone());
            self.unit(&key, &site, move |s| {
                let gs = s.gate_types(c, inner)?;
                let mut ps = vec![];
                for g in &gs {
                    ps.push((g.name.clone(), s.gate_prefix(g)?));
                }
                for i in 0..ps.len() {
                    for j in 0..i {
                        let (a, b) = (&ps[i].1, &ps[j].1);
                        let m = a.len().min(b.len());
                        s.check(&format!("{} {}/{}", key1, ps[j].0, ps[i].0), &site1, "gate prefixes are prefix-free", a[..m] != b[..m], || {
                            format!("{:?} and {:?}", a, b)
                        });
                    }
                }
                Ok(())
            });
        }
        Ok(())
    }

    /// honest witness generation satisfies the gate's constraints, and the constraints leave no other value
    pub fn check_gate_generators(&mut self) -> R<()> {
        for (c, inner) in self.curve_pairs()? {
            let cn = self.it.head(c);
            for g in self.gate_types(c, inner)? {
                let gen = self.trait_item("WitnessGenerator", "generate")?;
                let sf = self.scalar(c)?;
                let fid = self.fid_of(sf)?;
                let ga = self.tcx.mk_args(&[g.ty.into(), sf.into()]);
                let site = self.impl_site(gen, ga);
                let key = format!("{}<{}>", g.name, cn);
                let (key1, site1) = (key.clone(), site.clone());
                self.unit(&key, &site, move |s| s.gate_generator(&g, fid, ga, &key1, &site1));
            }
        }
        Ok(())
    }
    fn gate_generator(&mut self, g: &GateTy<'tcx>, fid: FieldId, ga: GenericArgsRef<'tcx>, key: &str, site: &str) -> R<()> {
        let dep = self.trait_item("WitnessGenerator", "dependencies")?;
        let gen = self.trait_item("WitnessGenerator", "generate")?;
        let sf = self.scalar(g.c)?;
        let pwt = {
            let d = self.find_adt("PartialWitness")?;
            self.ty_of(d, &[sf])
        };
        let n = self.const_usize("NUM_WIRES")?;
        let grid = self.const_usize("GRID_WIDTH")?;
        let cons = self.gate_consts(g, fid)?;
        let nat = self.gate_native(g, "evaluate_unfiltered", &cons)?;
        let new = self.method(&g.name, "new")?;
        let ty::Adt(_, gargs) = g.ty.kind() else { return unsup("gate type") };
        let gv = self.call(new, gargs, vec![V::Int(0)])?;
        let ds = self.call(dep, ga, vec![ptr_to(gv.clone())])?;
        let mut deps = self.it.seq_items(&ds)?.to_vec();
        let declared = !deps.is_empty();
        if !declared {
            for i in 0..n {
                deps.push(self.wire_target(g.c, 0, i)?);
            }
        }
        let atom_of = |gate: usize, input: usize| -> Option<TermId> {
            let pre = if gate == 0 {
                "L"
            } else if gate == 1 {
                "R"
            } else if gate == grid {
                "B"
            } else {
                return None;
            };
            Some(name(&format!("{}{}", pre, input)))
        };
        let mut dep_atoms = vec![];
        for d in &deps {
            match self.wire_of(d)? {
                Some((gt, i)) => match atom_of(gt, i) {
                    Some(a) => dep_atoms.push((d.clone(), a)),
                    None => return unsup("dependency outside the gate's window"),
                },
                None => return unsup("dependency is not a wire"),
            }
        }
        // finite domains imposed by the gate itself on its inputs
        let mut domains: Vec<(TermId, Vec<u64>)> = vec![];
        for p in &nat {
            let at = p.atoms();
            if at.len() == 1 {
                let u = *at.iter().next().unwrap();
                if dep_atoms.iter().any(|x| x.1 == u) {
                    let r = small_roots(p, u);
                    self.check(&format!("{} domain of {}", key, show(u)), site, "a constraint on one input wire has only simple small roots", r.is_some(), || p.show());
                    if let Some(r) = r {
                        domains.push((u, r));
                    }
                }
            }
        }
        let total: usize = domains.iter().map(|d| d.1.len()).product();
        if total > 4096 {
            return Ok(()); // range-check gates: no generator of their own
        }
        let rows = sref(vec![fseq(&cons)]);
        for case in 0..total {
            let mut idx = case;
            let mut val: HashMap<TermId, Poly> = HashMap::new();
            let mut label = String::new();
            for (u, r) in &domains {
                val.insert(*u, Poly::int(fid, r[idx % r.len()]));
                label += &format!(" {}={}", show(*u), r[idx % r.len()]);
                idx /= r.len();
            }
            let mut have = vec![];
            for (d, a) in &dep_atoms {
                let p = val.get(a).cloned().unwrap_or(Poly::atom(fid, *a));
                val.insert(*a, p.clone());
                have.push((d.clone(), p));
            }
            self.it.reset();
            if !declared {
                // a generator without dependencies runs on an empty witness
                let pw = self.partial(pwt, &[])?;
                if let Ok(r) = self.call(gen, ga, vec![ptr_to(gv.clone()), rows.clone(), ptr_to(pw)]) {
                    let outs = self.partial_entries(&r)?;
                    if !outs.is_empty() {
                        let mut w = vec![];
                        for (t, _) in &outs {
                            if let Some((a, b)) = self.wire_of(t)? {
                                w.extend(atom_of(a, b))
                            }
                        }
                        dep_atoms.retain(|d| !w.contains(&d.1));
                        for a in &w {
                            val.remove(a);
                        }
                        have.clear();
                    }
                }
            }
            let pw = self.partial(pwt, &have)?;
            let r = match self.call(gen, ga, vec![ptr_to(gv.clone()), rows.clone(), ptr_to(pw)]) {
                Ok(r) => r,
                Err(Stop::Panic(m)) => {
                    self.check(&format!("{}{} dependencies", key, label), site, "the generator reads only targets it declares", false, || {
                        format!("generation from the declared dependencies diverges: {}", m)
                    });
                    continue;
                }
                Err(e) => return Err(e),
            };
            let outs = self.partial_entries(&r)?;
            if outs.is_empty() {
                continue;
            }
            let mut written = vec![];
            let mut bad = None;
            for (t, p) in outs {
                match self.wire_of(&t)?.and_then(|(a, b)| atom_of(a, b)) {
                    Some(a) => {
                        if let Some(q) = val.get(&a) {
                            if !q.sub(&p).is_zero() {
                                bad = Some(format!("overwrites {} with {}", show(a), p.show()));
                            }
                        }
                        val.insert(a, p.clone());
                        written.push((a, p));
                    }
                    None => bad = Some("writes a target outside the gate's window".into()),
                }
            }
            self.check(&format!("{}{} writes", key, label), site, "the generator writes only its own output wires", bad.is_none(), || bad.clone().unwrap());
            for (i, p) in nat.iter().enumerate() {
                let q = p.subst(&val);
                self.check(
                    &format!("{}{} constraint {}", key, label, i),
                    site,
                    "the constraint polynomial vanishes identically on the generated witness",
                    q.is_zero(),
                    || format!("constraint {} evaluates to {}", p.show(), q.normalised().show()),
                );
            }
            // determinism
            let mut sv = Solved::default();
            for (_, a) in &dep_atoms {
                sv.val.insert(*a, val[a].clone());
            }
            let cs: Vec<(usize, usize, Poly)> = nat.iter().enumerate().map(|(i, p)| (0, i, p.clone())).collect();
            let consts: BTreeSet<TermId> = cons.iter().flat_map(|p| p.atoms()).collect();
            solve_core(fid, cs, &|a| !consts.contains(&a) && matches!(term(a), Term::Name(_)) && show(a).starts_with(['L', 'R', 'B']) && !dep_atoms.iter().any(|d| d.1 == a), &mut sv);
            for (a, p) in &written {
                let ok = sv.val.get(a).map(|q| q.sub(p).is_zero());
                self.check(
                    &format!("{}{} output {} determined", key, label, show(*a)),
                    site,
                    "given the input wires, the constraints force each output wire to the generated value",
                    ok == Some(true),
                    || match sv.val.get(a) {
                        Some(q) => format!("constraints force {} but the generator writes {}", q.show(), p.show()),
                        None => format!("the constraints leave {} free", show(*a)),
                    },
                );
            }
        }
        Ok(())
    }
}
#[allow(dead_code)]
fn _u(_: BTreeSet<u8>, _: HashMap<u8, u8>) {}
