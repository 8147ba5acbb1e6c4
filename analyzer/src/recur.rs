//! The circuit that verifies a proof: what its gates and copy constraints force, over uninterpreted permutation,
//! square roots and endomorphism scalars; points are formal scalar combinations.
use crate::base::*;
use crate::circ::*;
use crate::gadgets::*;
use crate::poly::*;
use crate::trans::*;
use crate::val::*;
use rustc_middle::ty::{self, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

/// a formal combination of points: coefficient of each (base point, as the term of its coordinates)
type Comb = BTreeMap<TermId, Poly>;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Perm,
    /// sum of [s] P
    Msm,
    /// sum of [n(s)] P, and each n(s)
    MsmEndo,
    /// [1 / n(s)] P, and n(s)
    InvEndo,
    Add,
    Sqrt,
}
#[derive(Clone)]
struct Call<'tcx> {
    op: Op,
    ins: Vec<V<'tcx>>,
    outs: Vec<V<'tcx>>,
}
/// the group: combinations by the coordinates that stand for them
#[derive(Default)]
struct Grp {
    by_x: HashMap<TermId, (TermId, Comb)>,
    by_y: HashMap<TermId, Comb>,
}
impl Grp {
    fn read(&self, x: &Poly, y: &Poly) -> Comb {
        if let (Some(a), Some(b)) = (x.as_atom(), y.as_atom()) {
            if let Some((yy, c)) = self.by_x.get(&a) {
                if *yy == b {
                    return c.clone();
                }
            }
        }
        let b = app("point", vec![intern(Term::P(x.clone())), intern(Term::P(y.clone()))]);
        let mut c = Comb::new();
        c.insert(b, Poly::one(x.fid));
        c
    }
    fn write(&mut self, fid: FieldId, c: &Comb) -> (Poly, Poly) {
        let c: Comb = c.iter().filter(|x| !x.1.is_zero_const()).map(|(a, b)| (*a, b.clone())).collect();
        if c.len() == 1 {
            let (b, k) = c.iter().next().unwrap();
            if k.as_const() == Some(1u32.into()) {
                if let Term::App(_, xy) = term(*b) {
                    if let (Term::P(x), Term::P(y)) = (term(xy[0]), term(xy[1])) {
                        return (x.clone(), y.clone());
                    }
                }
            }
        }
        let mut k = vec![];
        for (b, q) in &c {
            k.push(*b);
            k.push(intern(Term::P(q.clone())));
        }
        let (x, y) = (app("sum.x", k.clone()), app("sum.y", k));
        self.by_y.insert(y, c.clone());
        self.by_x.insert(x, (y, c));
        (Poly::atom(fid, x), Poly::atom(fid, y))
    }
}
impl Grp {
    /// the combination stated to vanish by the equality of two x (or y) coordinates
    fn equation(&self, p: &Poly) -> Option<(bool, Comb)> {
        let v: Vec<_> = p.t.iter().collect();
        if v.len() != 2 {
            return None;
        }
        let at = |m: &Vec<(TermId, i32)>| if m.len() == 1 && m[0].1 == 1 { Some(m[0].0) } else { None };
        let (a, b) = (at(v[0].0)?, at(v[1].0)?);
        if v[0].1 + v[1].1 != field_p(p.fid) {
            return None;
        }
        let neg = |c: &Comb| -> Comb { c.iter().map(|(k, v)| (*k, v.neg())).collect() };
        if let (Some(x), Some(y)) = (self.by_x.get(&a), self.by_x.get(&b)) {
            return Some((true, cadd(&x.1, &neg(&y.1))));
        }
        if let (Some(x), Some(y)) = (self.by_y.get(&a), self.by_y.get(&b)) {
            return Some((false, cadd(x, &neg(y))));
        }
        None
    }
}
fn cadd(a: &Comb, b: &Comb) -> Comb {
    let mut r = a.clone();
    for (k, v) in b {
        let n = match r.get(k) {
            Some(o) => o.add(v),
            None => v.clone(),
        };
        r.insert(*k, n);
    }
    r
}
fn cmul(s: &Poly, a: &Comb) -> Comb {
    a.iter().map(|(k, v)| (*k, v.mul(s))).collect()
}
fn fapp(op: &str, x: &Poly) -> Poly {
    Poly::atom(x.fid, app(op, vec![intern(Term::P(x.clone()))]))
}
/// a field element used as a scalar of a curve over that field
fn as_scalar(x: &Poly) -> Poly {
    fapp("scalar", x)
}
fn halo_n(x: &Poly) -> Poly {
    fapp("n", x)
}
fn spec_g(x: &Poly, us: &[Poly]) -> Poly {
    // prod (u_i x^(2^(k-1-i)) + 1 / u_i)
    let mut r = Poly::one(x.fid);
    let mut xp = x.clone();
    for u in us.iter().rev() {
        r = r.mul(&u.mul(&xp).add(&u.inv()));
        xp = xp.mul(&xp);
    }
    r
}
fn horner(t: &[Poly], a: &Poly) -> Poly {
    let mut s = Poly::zero(a.fid);
    for x in t.iter().rev() {
        s = s.mul(a).add(x);
    }
    s
}

impl<'tcx> Ctx<'tcx> {
    /// names of the targets in a value, by field path
    fn name_targets(&mut self, v: &V<'tcx>, path: &str, out: &mut BTreeMap<String, V<'tcx>>) -> R<()> {
        let v = self.it.deref_all(v)?;
        if let Ok(s) = self.it.seq_items(&v) {
            for (i, x) in s.to_vec().iter().enumerate() {
                self.name_targets(x, &format!("{}.{}", path, i), out)?;
            }
            return Ok(());
        }
        if let V::Adt(a) = &v {
            let h = self.it.head(a.ty);
            if h == "Target" {
                out.insert(path.to_string(), v.clone());
                return Ok(());
            }
            let ty::Adt(d, _) = a.ty.kind() else { return Ok(()) };
            let fs: Vec<String> = d.variant(rustc_abi::VariantIdx::from_u32(a.variant)).fields.iter().map(|f| f.name.to_string()).collect();
            for (n, x) in fs.iter().zip(a.f.clone().iter()) {
                let p = if d.is_enum() { path.to_string() } else { format!("{}.{}", path, n) };
                self.name_targets(x, &p, out)?;
            }
        }
        Ok(())
    }
    fn hook_heavy(&mut self, c: Ty<'tcx>, rec: Rc<RefCell<Vec<Call<'tcx>>>>) -> R<()> {
        let avt = self.method("CircuitBuilder", "add_virtual_target")?;
        let ca = self.tcx.mk_args(&[c.into()]);
        let td = self.find_adt("Target")?;
        let sf = self.scalar(c)?;
        let tt = self.ty_of(td, &[sf]);
        let me: *mut Self = self;
        for (m, op) in [
            ("rescue_permutation", Op::Perm),
            ("curve_msm", Op::Msm),
            ("curve_msm_endo", Op::MsmEndo),
            ("curve_mul_inv_endo", Op::InvEndo),
            ("curve_add", Op::Add),
            ("deterministic_square_root", Op::Sqrt),
        ] {
            self.method("CircuitBuilder", m)?;
            let rec = rec.clone();
            self.it.hooks.insert(
                format!("CircuitBuilder::{}", m),
                Rc::new(move |it, _, args, dt| {
                    // the context outlives the hooks, which are removed before the analysis of the circuit ends
                    let s = unsafe { &mut *me };
                    let mut ins = vec![];
                    for a in &args[1..] {
                        s.flat_ordered(a, &mut ins)?;
                    }
                    let n = match op {
                        Op::Perm => ins.len(),
                        Op::MsmEndo => 2 + ins.len() / 3,
                        Op::InvEndo => 3,
                        Op::Sqrt => 1,
                        _ => 2,
                    };
                    let mut outs = vec![];
                    for _ in 0..n {
                        outs.push(it.call_def(avt, ca, vec![args[0].clone()], tt, false)?);
                    }
                    rec.borrow_mut().push(Call { op, ins, outs: outs.clone() });
                    let point = |s: &Self, t: Ty<'tcx>, o: &[V<'tcx>]| -> R<V<'tcx>> {
                        let (x, y) = (s.fidx(t, "x")?, s.fidx(t, "y")?);
                        let mut f = vec![V::Uninit; 2];
                        f[x] = o[0].clone();
                        f[y] = o[1].clone();
                        Ok(adt(t, 0, f))
                    };
                    Ok(Some(match op {
                        Op::Perm => seq(outs),
                        Op::Sqrt => outs[0].clone(),
                        Op::Add | Op::Msm => point(s, dt, &outs)?,
                        Op::MsmEndo | Op::InvEndo => {
                            let (pn, sn) = if op == Op::MsmEndo { ("msm_result", "actual_scalars") } else { ("mul_result", "actual_scalar") };
                            let (pi, si) = (s.fidx(dt, pn)?, s.fidx(dt, sn)?);
                            let ty::Adt(d, a) = dt.kind() else { return unsup("endomorphism result") };
                            let fs: Vec<_> = d.non_enum_variant().fields.iter().collect();
                            if fs.len() != 2 {
                                return unsup("fields of an endomorphism result");
                            }
                            let pt = it.field_type(fs[pi], a);
                            let mut f = vec![V::Uninit; 2];
                            f[pi] = point(s, pt, &outs)?;
                            f[si] = if op == Op::MsmEndo { seq(outs[2..].to_vec()) } else { outs[2].clone() };
                            adt(dt, 0, f)
                        }
                    }))
                }),
            );
        }
        self.it.hooks.insert("CircuitBuilder::build".into(), Rc::new(|_, _, _, _| Ok(Some(V::Uninit))));
        for (f, p) in [("blake_hash_base_field_to_curve", "hash"), ("hash_base_field_to_curve", "rescue hash")] {
            let d = self.find_fn(f)?;
            let k = self.it.key(d);
            self.it.hooks.insert(
                k,
                Rc::new(move |_, _, args, dt| {
                    let s = unsafe { &mut *me };
                    let seed = args[0].poly()?;
                    let t = dt;
                    let mut f = vec![V::Uninit; 3];
                    f[s.fidx(t, "x")?] = V::F(fapp(&format!("{}.x", p), &seed));
                    f[s.fidx(t, "y")?] = V::F(fapp(&format!("{}.y", p), &seed));
                    f[s.fidx(t, "zero")?] = V::Int(0);
                    Ok(Some(adt(t, 0, f)))
                }),
            );
        }
        Ok(())
    }
    /// targets of an argument of a curve operation: scalars before the points they multiply, x before y
    fn flat_ordered(&mut self, v: &V<'tcx>, out: &mut Vec<V<'tcx>>) -> R<()> {
        let v = self.it.deref_all(v)?;
        if let Ok(s) = self.it.seq_items(&v) {
            for x in s.to_vec().iter() {
                self.flat_ordered(x, out)?;
            }
            return Ok(());
        }
        let V::Adt(a) = &v else { return Ok(()) };
        match self.it.head(a.ty).as_str() {
            "Target" => out.push(v.clone()),
            "CurveMulOp" => {
                for n in ["scalar", "point"] {
                    let x = self.get_field(&v, n)?;
                    self.flat_ordered(&x, out)?;
                }
            }
            "AffinePointTarget" => {
                for n in ["x", "y"] {
                    let x = self.get_field(&v, n)?;
                    self.flat_ordered(&x, out)?;
                }
            }
            h => return unsup(format!("argument of type {}", h)),
        }
        Ok(())
    }
    fn eval_op(&mut self, g: &mut Grp, op: Op, ins: &[Poly], fid: FieldId) -> Vec<Poly> {
        match op {
            Op::Perm => (0..ins.len()).map(|i| perm_atom(&mut self.it, i, ins, fid)).collect(),
            Op::Sqrt => vec![fapp("sqrt", &ins[0])],
            Op::Add => {
                let c = cadd(&g.read(&ins[0], &ins[1]), &g.read(&ins[2], &ins[3]));
                let (x, y) = g.write(fid, &c);
                vec![x, y]
            }
            Op::Msm | Op::MsmEndo => {
                let mut c = Comb::new();
                let mut sc = vec![];
                for k in ins.chunks(3) {
                    let s = if op == Op::Msm { as_scalar(&k[0]) } else { halo_n(&k[0]) };
                    c = cadd(&c, &cmul(&s, &g.read(&k[1], &k[2])));
                    sc.push(s);
                }
                let (x, y) = g.write(fid, &c);
                let mut r = vec![x, y];
                if op == Op::MsmEndo {
                    r.extend(sc);
                }
                r
            }
            Op::InvEndo => {
                let s = halo_n(&ins[0]);
                let (x, y) = g.write(fid, &cmul(&s.inv(), &g.read(&ins[1], &ins[2])));
                vec![x, y, s]
            }
        }
    }
    /// a value of a proof type: every field element and coordinate is named by its path
    fn plain_data(&mut self, t: Ty<'tcx>, path: &str, len: &HashMap<&str, usize>, out: &mut BTreeMap<String, Poly>) -> R<V<'tcx>> {
        if let Some(f) = self.it.field_ty(t) {
            let a = name(&format!("value {}", path));
            self.it.atom_fields.insert(a, f);
            let p = Poly::atom(f, a);
            out.insert(path.into(), p.clone());
            return Ok(V::F(p));
        }
        match t.kind() {
            ty::Adt(_, a) if self.it.head(t) == "Vec" => {
                let Some(&n) = len.get(path.rsplit('.').next().unwrap()) else { return unsup(format!("no length for the list {}", path)) };
                let e = a.type_at(0);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.plain_data(e, &format!("{}.{}", path, i), len, out)?);
                }
                Ok(seq(v))
            }
            ty::Adt(d, a) if d.is_struct() => {
                let mut f = vec![];
                for fd in &d.non_enum_variant().fields {
                    let ft = self.it.field_type(fd, a);
                    f.push(self.plain_data(ft, &format!("{}.{}", path, fd.name), len, out)?);
                }
                Ok(adt(t, 0, f))
            }
            ty::Bool => Ok(V::Int(0)),
            _ => unsup(format!("no value of type {}", t)),
        }
    }
    /// every target of the proof is given the component of the proof that it stands for, and nothing else is set
    fn witness_of_proof(&mut self, key: &str, r: &V<'tcx>, pr: &BTreeMap<String, V<'tcx>>, c: Ty<'tcx>, inner: Ty<'tcx>, dp: usize, old: usize) -> R<()> {
        let sh = self.shape()?;
        let nt = self.const_usize("QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER")?;
        let sf = self.scalar(c)?;
        let fid = self.fid_of(sf)?;
        let mut len = HashMap::new();
        for (n, v) in [("c_wires", sh.wires), ("c_plonk_t", nt), ("o_constants", sh.consts), ("o_plonk_sigmas", sh.routed), ("o_wires", sh.wires), ("o_plonk_t", nt), ("o_old_proofs", old), ("halo_l", dp), ("halo_r", dp), ("halo_us", dp)] {
            len.insert(n, v);
        }
        let pwd = self.find_adt("PartialWitness")?;
        let pwt = self.ty_of(pwd, &[sf]);
        let pw = self.partial(pwt, &[])?;
        let pw = ptr_to(pw);
        let mut vals = BTreeMap::new();
        let d = self.method("ProofTarget", "populate_witness")?;
        let site = self.site(d);
        let pd = self.find_adt("Proof")?;
        let pt = self.ty_of(pd, &[inner]);
        let pv = self.plain_data(pt, "proof", &len, &mut vals)?;
        let tv = self.get_field(r, "proof")?;
        let ga = self.tcx.mk_args(&[c.into(), inner.into()]);
        let mut oks = vec![];
        oks.push(self.call(d, ga, vec![ptr_to(tv), pw.clone(), pv])?);
        let d = self.method("OldProofTarget", "populate_witness")?;
        let od = self.find_adt("OldProof")?;
        let ot = self.ty_of(od, &[inner]);
        let olds = self.get_field(r, "old_proofs")?;
        let olds = self.it.seq_items(&olds)?.to_vec();
        let ga = self.tcx.mk_args(&[inner.into()]);
        for (i, o) in olds.iter().enumerate() {
            let v = self.plain_data(ot, &format!("old.{}", i), &len, &mut vals)?;
            oks.push(self.call(d, ga, vec![ptr_to(o.clone()), pw.clone(), ptr_to(v)])?);
        }
        for o in &oks {
            let ok = matches!(o, V::Adt(a) if a.variant == 0);
            self.check(&format!("{} witness accepted", key), &site, "setting the targets of a well-formed proof succeeds", ok, || o.show_d(2));
        }
        let w = self.it.deref_all(&pw)?;
        let mut got: HashMap<TermId, Poly> = HashMap::new();
        for (t, p) in self.partial_entries(&w)? {
            let k = self.key(&t)?;
            got.insert(k, p);
        }
        let mut n = 0;
        for (path, t) in pr {
            if path.starts_with("proof.o_public_inputs") {
                continue;
            }
            n += 1;
            let k = self.key(t)?;
            let src = path.replace("halo_l_i", "halo_l").replace("halo_r_i", "halo_r");
            let Some(v) = vals.get(&src) else {
                self.ob(&format!("{} witness {}", key, path), &site, "analysable", St::Undecided, "no such component in a proof".into());
                continue;
            };
            let want = if v.fid == fid { v.clone() } else { self.it.convert_atom(v.as_atom().unwrap(), fid) };
            let g = got.get(&k);
            let ok = g.map(|g| g.sub(&want).is_zero()) == Some(true);
            self.check(&format!("{} witness {}", key, path), &site, "the target is set to the component of the proof it stands for", ok, || match g {
                None => "not set".into(),
                Some(g) => format!("set to {} instead of {}", g.show(), want.show()),
            });
        }
        self.check(&format!("{} witness only", key), &site, "no other target is set", got.len() == n, || format!("{} targets instead of {}", got.len(), n));
        Ok(())
    }
    pub fn check_recursion(&mut self) -> R<()> {
        let saved = self.it.hooks.clone();
        let r = self.check_recursion_();
        self.it.hooks = saved;
        r
    }
    fn check_recursion_(&mut self) -> R<()> {
        let d = self.find_fn("plonk_recursion::recursive_verification_circuit")?;
        let site = self.site(d);
        for (c, inner) in self.curve_pairs()? {
            let cn = self.it.head(c);
            for (dp, old) in [(2usize, 1usize), (1, 0), (3, 2)] {
                let key = format!("recursive verifier<{}> of 2^{} rows with {} old proofs", cn, dp, old);
                let k2 = key.clone();
                let s2 = site.clone();
                self.unit(&key, &site, |s| {
                    let base = s.it.hooks.clone();
                    let r = s.recursion_case(&k2, &s2, c, inner, dp, old);
                    s.it.hooks = base;
                    r
                });
            }
        }
        Ok(())
    }
    fn recursion_case(&mut self, key: &str, site: &str, c: Ty<'tcx>, inner: Ty<'tcx>, dp: usize, old: usize) -> R<()> {
        let g = self.gad(c, inner)?;
        let fid = g.fid;
        let sf = self.scalar(c)?;
        let sh = self.shape()?;
        let nt = self.const_usize("QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER")?;
        let (nw, nr, nc) = (sh.wires, sh.routed, sh.consts);
        let npi = 4 + nc + nr + 3 * nw + 2 + nt + dp + (2 + dp) * old;
        let sets = (npi + nw - 1) / nw;
        // build
        let rec = Rc::new(RefCell::new(vec![]));
        self.hook_perm();
        self.hook_heavy(c, rec.clone())?;
        let built: Rc<RefCell<Option<V<'tcx>>>> = Rc::new(RefCell::new(None));
        let b2 = built.clone();
        self.it.hooks.insert(
            "CircuitBuilder::build".into(),
            Rc::new(move |_, _, a, _| {
                *b2.borrow_mut() = Some(a[0].clone());
                Ok(Some(V::Uninit))
            }),
        );
        let d = self.find_fn("plonk_recursion::recursive_verification_circuit")?;
        let ga = self.args_for(d, c, inner, &[]);
        let r = self.call(d, ga, vec![V::Int(dp as u128), V::Int(128), V::Int(npi as u128), V::Int(old as u128)])?;
        let Some(b) = built.borrow().clone() else { return unsup("no circuit was built") };
        // the inputs of the circuit: everything in the proofs
        let mut pr = BTreeMap::new();
        for (f, n) in [("proof", "proof"), ("old_proofs", "old")] {
            let v = self.get_field(&r, f)?;
            self.name_targets(&v, n, &mut pr)?;
        }
        let mut pis = BTreeMap::new();
        let v = self.get_field(&r, "public_inputs")?;
        self.name_targets(&v, "", &mut pis)?;
        let mut known = vec![];
        let mut env: HashMap<String, Poly> = HashMap::new();
        for (n, t) in &pr {
            let p = Poly::atom(fid, name(n));
            env.insert(n.clone(), p.clone());
            known.push((t.clone(), p));
        }
        let at = |n: String| -> R<Poly> {
            match env.get(&n) {
                Some(p) => Ok(p.clone()),
                None => unsup(format!("no proof component {}", n)),
            }
        };
        let list = |n: &str, k: usize| -> R<Vec<Poly>> { (0..k).map(|i| at(format!("{}.{}", n, i))).collect() };
        let pts = |n: &str| -> R<(Poly, Poly)> { Ok((at(format!("{}.x", n))?, at(format!("{}.y", n))?)) };
        // what the constraints force
        let mut cc = self.circ(&b, c, inner)?;
        let mut sol = Solved::default();
        for (t, p) in &known {
            let k = self.key(t)?;
            let cl = cc.find(k);
            match sol.val.get(&cl) {
                Some(q) => {
                    let dlt = q.sub(p);
                    sol.asserts.push((usize::MAX, 0, dlt));
                }
                None => {
                    sol.val.insert(cl, p.clone());
                }
            }
        }
        let cons = self.all_constraints(&mut cc)?;
        let tv: std::collections::BTreeSet<TermId> = cc.tvals.keys().cloned().collect();
        // zeta of the inner proof is not a root of unity
        let pi_at = |n: &str| -> R<usize> {
            let Some(V::Adt(a)) = pis.get(n) else { return unsup(format!("no public input {}", n)) };
            find_int(&V::Adt(a.clone())).map_or_else(|| unsup("index of a public input"), Ok)
        };
        let inp = |n: String| -> R<Poly> {
            let i = pi_at(&n)?;
            at(format!("proof.o_public_inputs.{}.o_wires.{}", i / nw, i % nw))
        };
        let inps = |n: &str, k: usize| -> R<Vec<Poly>> { (0..k).map(|i| inp(format!("{}.{}", n, i))).collect() };
        let one = Poly::one(fid);
        let z0 = inp(".zeta".into())?;
        let zn = z0.pow(1 << dp);
        sol.nonzero = vec![z0.sub(&one), zn.sub(&one)];
        let calls = rec.borrow().clone();
        let mut done = vec![false; calls.len()];
        let mut grp = Grp::default();
        solve_core(fid, cons, &|a| tv.contains(&a), &mut sol);
        loop {
            let mut progress = false;
            for (k, cl) in calls.iter().enumerate() {
                if done[k] {
                    continue;
                }
                let mut iv = vec![];
                for t in &cl.ins {
                    let kk = self.key(t)?;
                    match sol.val.get(&cc.find(kk)) {
                        Some(p) => iv.push(p.clone()),
                        None => break,
                    }
                }
                if iv.len() < cl.ins.len() {
                    continue;
                }
                done[k] = true;
                progress = true;
                let ov = self.eval_op(&mut grp, cl.op, &iv, fid);
                for (o, p) in cl.outs.iter().zip(ov) {
                    let kk = self.key(o)?;
                    let k3 = cc.find(kk);
                    match sol.val.get(&k3) {
                        Some(q) => {
                            let dlt = q.sub(&p);
                            if !dlt.is_zero() {
                                sol.asserts.push((usize::MAX, 0, dlt));
                            }
                        }
                        None => {
                            sol.val.insert(k3, p);
                        }
                    }
                }
                let open = std::mem::take(&mut sol.open);
                if open.iter().any(|(_, _, p)| p.atoms().iter().any(|a| sol.val.contains_key(a))) {
                    solve_core(fid, open, &|a| tv.contains(&a), &mut sol);
                } else {
                    sol.open = open;
                }
            }
            if !progress {
                break;
            }
        }
        let left = done.iter().filter(|x| !**x).count();
        self.check(&format!("{} determined", key), site, "every permutation and curve operation acts on values determined by the proofs", left == 0, || format!("{} operations with undetermined operands", left));
        // the specification: the transcript
        let mut msgs = vec![];
        let mut steps = vec![];
        let see = |p: Poly, m: &mut Vec<Poly>, st: &mut Vec<Step>| {
            st.push(Step::See(m.len()));
            m.push(p);
        };
        let see_pt = |n: &str, m: &mut Vec<Poly>, st: &mut Vec<Step>| -> R<()> {
            let (x, y) = pts(n)?;
            see(x, m, st);
            see(y, m, st);
            Ok(())
        };
        for i in 0..nw {
            see_pt(&format!("proof.c_wires.{}", i), &mut msgs, &mut steps)?;
        }
        steps.extend([Step::Draw, Step::Draw]);
        see_pt("proof.c_plonk_z", &mut msgs, &mut steps)?;
        steps.push(Step::Draw);
        for i in 0..nt {
            see_pt(&format!("proof.c_plonk_t.{}", i), &mut msgs, &mut steps)?;
        }
        for i in 0..old {
            see_pt(&format!("old.{}.halo_g", i), &mut msgs, &mut steps)?;
        }
        steps.push(Step::Draw);
        let mut opens = vec![];
        let mut names: Vec<String> = (0..sets).map(|i| format!("proof.o_public_inputs.{}", i)).collect();
        for n in ["o_local", "o_right", "o_below"] {
            names.push(format!("proof.{}", n));
        }
        for n in &names {
            let mut o = list(&format!("{}.o_constants", n), nc)?;
            o.extend(list(&format!("{}.o_plonk_sigmas", n), nr)?);
            o.extend(list(&format!("{}.o_wires", n), nw)?);
            o.push(at(format!("{}.o_plonk_z", n))?);
            o.extend(list(&format!("{}.o_plonk_t", n), nt)?);
            o.extend(list(&format!("{}.o_old_proofs", n), old)?);
            for p in &o {
                see(p.clone(), &mut msgs, &mut steps);
            }
            opens.push(o);
        }
        steps.extend([Step::Draw, Step::Draw, Step::Draw]);
        for i in 0..dp {
            see_pt(&format!("proof.halo_l_i.{}", i), &mut msgs, &mut steps)?;
            see_pt(&format!("proof.halo_r_i.{}", i), &mut msgs, &mut steps)?;
            steps.push(Step::Draw);
        }
        see_pt("proof.schnorr_proof.r", &mut msgs, &mut steps)?;
        steps.push(Step::Draw);
        let ch = self.native_transcript(sf, &steps, &msgs)?;
        let (beta, gamma, alpha, zeta) = (&ch[0], &ch[1], &ch[2], &ch[3]);
        let (v, u, us) = (&ch[4], &ch[5], &ch[6]);
        let rs = &ch[7..7 + dp];
        let sc = &ch[7 + dp];
        // outputs
        let halo_us: Vec<Poly> = rs.iter().map(|r| fapp("sqrt", &halo_n(r))).collect();
        let mut want: Vec<(String, Poly)> = vec![(".beta".into(), beta.clone()), (".gamma".into(), gamma.clone()), (".alpha".into(), alpha.clone()), (".zeta".into(), zeta.clone())];
        for (o, src, k) in [
            ("o_constants", "o_local.o_constants", nc),
            ("o_plonk_sigmas", "o_local.o_plonk_sigmas", nr),
            ("o_local_wires", "o_local.o_wires", nw),
            ("o_right_wires", "o_right.o_wires", nw),
            ("o_below_wires", "o_below.o_wires", nw),
            ("o_plonk_t", "o_local.o_plonk_t", nt),
        ] {
            for i in 0..k {
                want.push((format!(".{}.{}", o, i), at(format!("proof.{}.{}", src, i))?));
            }
        }
        want.push((".o_plonk_z_local".into(), at("proof.o_local.o_plonk_z".into())?));
        want.push((".o_plonk_z_right".into(), at("proof.o_right.o_plonk_z".into())?));
        for i in 0..dp {
            want.push((format!(".halo_us.{}", i), halo_us[i].clone()));
        }
        for i in 0..old {
            let (x, y) = pts(&format!("old.{}.halo_g", i))?;
            want.push((format!(".old_proofs.{}", (2 + dp) * i), x));
            want.push((format!(".old_proofs.{}", (2 + dp) * i + 1), y));
            for j in 0..dp {
                want.push((format!(".old_proofs.{}", (2 + dp) * i + 2 + j), at(format!("old.{}.halo_us.{}", i, j))?));
            }
        }
        let all: Vec<&String> = want.iter().map(|x| &x.0).collect();
        for n in pis.keys() {
            if !all.contains(&n) {
                self.ob(&format!("{} output {}", key, n), site, "every public input of the circuit has a specified content", St::Undecided, "unknown public input".into());
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        for (n, w) in &want {
            let Some(t) = pis.get(n) else {
                self.ob(&format!("{} output {}", key, n), site, "outputs", St::Undecided, "no such public input".into());
                continue;
            };
            let kk = self.key(t)?;
            seen.insert(pi_at(n)?);
            let val = sol.val.get(&cc.find(kk)).cloned();
            let ok = val.as_ref().map(|q| q.sub(w).is_zero()) == Some(true);
            self.check(&format!("{} output {}", key, n), site, "the public input is forced to the component of the proof, or the challenge, that it stands for", ok, || match &val {
                None => "unconstrained".into(),
                Some(q) => format!("forced to {} instead of {}", q.show_d(2), w.show_d(2)),
            });
        }
        self.check(&format!("{} outputs distinct", key), site, "public inputs have distinct indices", seen.len() == want.len(), || format!("{} of {}", seen.len(), want.len()));
        // what must vanish: the identity the inner proof assumed
        let (b0, g0, a0) = (inp(".beta".into())?, inp(".gamma".into())?, inp(".alpha".into())?);
        let ow = inps(".o_local_wires", nw)?;
        let os = inps(".o_plonk_sigmas", nr)?;
        let (zl, zr) = (inp(".o_plonk_z_local".into())?, inp(".o_plonk_z_right".into())?);
        let ed = self.find_fn("gates::evaluate_all_constraints")?;
        let ea = self.args_for(ed, c, inner, &[]);
        let ev = self.call(ed, ea, vec![fref(&inps(".o_constants", nc)?), fref(&ow), fref(&inps(".o_right_wires", nw)?), fref(&inps(".o_below_wires", nw)?)])?;
        let mut terms = vec![];
        let zh = zn.sub(&one);
        let l1 = zh.mul(&z0.sub(&one).mul(&Poly::int(fid, 1 << dp)).inv());
        terms.push(zl.sub(&one).mul(&l1));
        let kd = self.find_fn("get_subgroup_shift")?;
        let ka = self.tcx.mk_args(&[sf.into()]);
        let (mut fp, mut gp) = (zl.clone(), zr.clone());
        for i in 0..nr {
            let k = self.call(kd, ka, vec![V::Int(i as u128)])?.poly()?;
            fp = fp.mul(&ow[i].add(&b0.mul(&k).mul(&z0)).add(&g0));
            gp = gp.mul(&ow[i].add(&b0.mul(&os[i])).add(&g0));
        }
        terms.push(fp.sub(&gp));
        for x in self.it.seq_items(&ev)?.iter() {
            terms.push(x.poly()?);
        }
        let tz = horner(&inps(".o_plonk_t", nt)?, &zn);
        // the vanishing combination is alpha-weighted: multiply out both inverses
        let ident = horner(&terms, &a0).sub(&tz.mul(&zh));
        let mut musts: Vec<(String, Poly)> = vec![("quotient identity of the previous proof".into(), ident)];
        for i in 0..old {
            let gu = list(&format!("old.{}.halo_us", i), dp)?;
            musts.push((format!("opening of old proof {}", i), spec_g(zeta, &gu).sub(&at(format!("proof.o_local.o_old_proofs.{}", i))?)));
        }
        // the opening argument
        let gen = {
            let v = self.it.assoc_const_of(inner, "GENERATOR_AFFINE")?;
            let (x, y) = (self.get_field(&v, "x")?, self.get_field(&v, "y")?);
            (x.poly()?, y.poly()?)
        };
        let mut cs = vec![gen; nc + nr];
        for i in 0..nw {
            cs.push(pts(&format!("proof.c_wires.{}", i))?);
        }
        cs.push(pts("proof.c_plonk_z")?);
        for i in 0..nt {
            cs.push(pts(&format!("proof.c_plonk_t.{}", i))?);
        }
        for i in 0..old {
            cs.push(pts(&format!("old.{}.halo_g", i))?);
        }
        let ns: Vec<Poly> = (0..cs.len()).map(|i| halo_n(&u.pow(i as u64))).collect();
        let mut q = Comb::new();
        for (p, n) in cs.iter().zip(&ns) {
            q = cadd(&q, &cmul(n, &grp.read(&p.0, &p.1)));
        }
        let red: Vec<Poly> = opens.iter().map(|o| o.iter().zip(&ns).fold(Poly::zero(fid), |a, (x, n)| a.add(&x.mul(n)))).collect();
        let hash = |seed: u64| {
            let p = Poly::int(fid, seed);
            (fapp("hash.x", &p), fapp("hash.y", &p))
        };
        let (hu, hh) = (hash((1 << dp) + 1), hash(1 << dp));
        let up = cmul(&halo_n(us), &grp.read(&hu.0, &hu.1));
        q = cadd(&q, &cmul(&as_scalar(&horner(&red, v)), &up));
        for (i, r) in rs.iter().enumerate() {
            let l = pts(&format!("proof.halo_l_i.{}", i))?;
            let rr = pts(&format!("proof.halo_r_i.{}", i))?;
            q = cadd(&q, &cmul(&halo_n(r), &grp.read(&l.0, &l.1)));
            q = cadd(&q, &cmul(&halo_n(r).inv(), &grp.read(&rr.0, &rr.1)));
        }
        let rd = self.trait_item("Field", "primitive_root_of_unity")?;
        let gn = self.call(rd, ka, vec![V::Int(dp as u128)])?.poly()?;
        let mut points: Vec<Poly> = (0..sets).map(|i| gn.pow(2 * i as u64)).collect();
        points.extend([zeta.clone(), zeta.mul(&gn), zeta.mul(&gn.pow(sh.grid as u64))]);
        let bs: Vec<Poly> = points.iter().map(|p| spec_g(p, &halo_us)).collect();
        let hb = as_scalar(&horner(&bs, v));
        let r0 = pts("proof.schnorr_proof.r")?;
        let g0 = pts("proof.halo_g")?;
        let lhs = cadd(&cmul(&as_scalar(sc), &q), &grp.read(&r0.0, &r0.1));
        let z1 = as_scalar(&at("proof.schnorr_proof.z1".into())?);
        let z2 = as_scalar(&at("proof.schnorr_proof.z2".into())?);
        let rhs = cadd(&cmul(&z1, &cadd(&grp.read(&g0.0, &g0.1), &cmul(&hb, &up))), &cmul(&z2, &grp.read(&hh.0, &hh.1)));
        let (lp, rp) = (grp.write(fid, &lhs), grp.write(fid, &rhs));
        musts.push(("opening argument x".into(), lp.0.sub(&rp.0)));
        musts.push(("opening argument y".into(), lp.1.sub(&rp.1)));
        let mut used = vec![false; musts.len()];
        let eq = cadd(&lhs, &rhs.iter().map(|(k, v)| (*k, v.neg())).collect());
        for (_, _, p) in &sol.asserts {
            // the opening argument, with the terms on either side
            if let Some((x, c)) = grp.equation(p) {
                let zero = |d: &Comb| d.values().all(|v| v.is_zero());
                let neg: Comb = eq.iter().map(|(k, v)| (*k, v.neg())).collect();
                if zero(&cadd(&c, &neg)) || zero(&cadd(&c, &eq)) {
                    let n = musts.len();
                    used[if x { n - 2 } else { n - 1 }] = true;
                    continue;
                }
            }
            // clear the denominators of the identity
            let hit = (0..musts.len()).find(|&i| {
                let w = &musts[i].1;
                if i == 0 {
                    [p.clone(), p.mul(&zh)].iter().any(|p| p.sub(w).is_zero() || p.add(w).is_zero())
                } else {
                    p.sub(w).is_zero() || p.add(w).is_zero()
                }
            });
            match hit {
                Some(i) => used[i] = true,
                None => self.check(&format!("{} restricts only what it should", key), site, "the circuit restricts the proofs only as specified", p.is_zero(), || format!("also forces {} = 0", p.show_d(3))),
            }
        }
        for (i, (n, w)) in musts.iter().enumerate() {
            self.check(&format!("{} enforces the {}", key, n), site, "the circuit enforces the verifier's equation", used[i] || w.is_zero(), || format!("{} = 0 is not enforced", w.show_d(2)));
        }
        self.witness_of_proof(key, &r, &pr, c, inner, dp, old)?;
        self.check(&format!("{} closed", key), site, "every gate constraint is decided by the proofs", sol.open.is_empty(), || format!("row {} constraint {}: {}", sol.open[0].0, sol.open[0].1, sol.open[0].2.show_d(2)));
        Ok(())
    }
}

fn find_int(v: &V) -> Option<usize> {
    match v {
        V::Int(i) => Some(*i as usize),
        V::Adt(a) => a.f.iter().find_map(|x| find_int(x)),
        _ => None,
    }
}
