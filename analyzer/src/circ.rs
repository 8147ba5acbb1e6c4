//! Circuits as data: what a builder recorded (gate constants, copy constraints, witness generators) and
//! the two things that follow from it: what the constraints force, and what the generators produce.
use crate::base::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rustc_middle::ty::{self, Ty};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type RowCache = HashMap<(String, Vec<TermId>), Rc<Vec<Poly>>>;

pub struct Shape {
    pub wires: usize,
    pub consts: usize,
    pub grid: usize,
    pub routed: usize,
}

pub struct Circ<'tcx> {
    pub c: Ty<'tcx>,
    pub inner: Ty<'tcx>,
    pub fid: FieldId,
    pub rows: Vec<Vec<Poly>>,
    pub copies: Vec<(V<'tcx>, V<'tcx>)>,
    pub gens: Vec<V<'tcx>>,
    pub shape: Shape,
    pub uf: HashMap<TermId, TermId>,
    pub tvals: BTreeMap<TermId, V<'tcx>>,
    pub cache: RowCache,
}

#[derive(Default, Clone)]
pub struct Solved {
    pub val: HashMap<TermId, Poly>,
    /// constraints that only restrict already known values: (row, index, polynomial that must vanish)
    pub asserts: Vec<(usize, usize, Poly)>,
    /// constraints with unknowns left
    pub open: Vec<(usize, usize, Poly)>,
    pub nonzero: Vec<Poly>,
}

impl<'tcx> Ctx<'tcx> {
    pub fn shape(&mut self) -> R<Shape> {
        Ok(Shape {
            wires: self.const_usize("NUM_WIRES")?,
            consts: self.const_usize("NUM_CONSTANTS")?,
            grid: self.const_usize("GRID_WIDTH")?,
            routed: self.const_usize("NUM_ROUTED_WIRES")?,
        })
    }
    pub fn new_builder(&mut self, c: Ty<'tcx>) -> R<V<'tcx>> {
        let d = self.method("CircuitBuilder", "new")?;
        let a = self.tcx.mk_args(&[c.into()]);
        let b = self.call(d, a, vec![V::Int(128)])?;
        Ok(ptr_to(b))
    }
    pub fn target(&mut self, b: &V<'tcx>, c: Ty<'tcx>) -> R<V<'tcx>> {
        let d = self.method("CircuitBuilder", "add_virtual_target")?;
        let a = self.tcx.mk_args(&[c.into()]);
        self.call(d, a, vec![b.clone()])
    }
    pub fn targets(&mut self, b: &V<'tcx>, c: Ty<'tcx>, n: usize) -> R<Vec<V<'tcx>>> {
        (0..n).map(|_| self.target(b, c)).collect()
    }
    /// decode a target: wire (gate, input), or None for the other kinds
    pub fn wire_of(&mut self, t: &V<'tcx>) -> R<Option<(usize, usize)>> {
        let t = self.it.deref_all(t)?;
        let V::Adt(a) = &t else { return unsup(format!("target {}", t.show_d(2))) };
        let ty::Adt(d, _) = a.ty.kind() else { return unsup("target type") };
        if self.tcx.item_name(d.did()).as_str() == "Wire" {
            return Ok(Some((a.f[0].usz()?, a.f[1].usz()?)));
        }
        let var = d.variant(rustc_abi::VariantIdx::from_u32(a.variant));
        if var.name.as_str() == "Wire" {
            let w = &a.f[0];
            if let V::Adt(wa) = w {
                // by field name
                let ty::Adt(wd, _) = wa.ty.kind() else { return unsup("wire type") };
                let fs = &wd.non_enum_variant().fields;
                let mut g = None;
                let mut i = None;
                for (k, f) in fs.iter().enumerate() {
                    match f.name.as_str() {
                        "gate" => g = Some(wa.f[k].usz()?),
                        "input" => i = Some(wa.f[k].usz()?),
                        _ => {}
                    }
                }
                return match (g, i) {
                    (Some(g), Some(i)) => Ok(Some((g, i))),
                    _ => unsup("Wire has no gate/input"),
                };
            }
        }
        Ok(None)
    }
    pub fn circ(&mut self, b: &V<'tcx>, c: Ty<'tcx>, inner: Ty<'tcx>) -> R<Circ<'tcx>> {
        let bv = self.it.deref_all(b)?;
        let V::Adt(a) = &bv else { return unsup("builder value") };
        let ty::Adt(d, args) = a.ty.kind() else { return unsup("builder type") };
        let sf = self.scalar(c)?;
        let fid = match self.it.field_ty(sf) {
            Some(f) => f,
            None => return unsup("scalar field"),
        };
        let (mut rows, mut copies, mut gens) = (None, None, None);
        for (k, f) in d.non_enum_variant().fields.iter().enumerate() {
            let t = self.it.field_type(f, args).to_string();
            if t.contains("dyn ") && t.contains("WitnessGenerator") {
                gens = Some(a.f[k].clone());
            } else if t.contains("Vec<(") && t.matches("Target<").count() == 2 {
                copies = Some(a.f[k].clone());
            } else if t.matches("Vec<").count() == 2 && !t.contains("Target") {
                rows = Some(a.f[k].clone());
            }
        }
        let (Some(rows), Some(copies), Some(gens)) = (rows, copies, gens) else { return unsup("builder fields") };
        let mut rv = vec![];
        for r in self.it.seq_items(&rows)?.iter() {
            let mut row = vec![];
            for x in self.it.seq_items(r)?.iter() {
                row.push(x.poly()?);
            }
            rv.push(row);
        }
        let mut cv = vec![];
        for p in self.it.seq_items(&copies)?.iter() {
            cv.push((p.field(0)?, p.field(1)?));
        }
        let gv = self.it.seq_items(&gens)?.to_vec();
        let shape = self.shape()?;
        let mut circ = Circ { c, inner, fid, rows: rv, copies: cv.clone(), gens: gv, shape, uf: HashMap::new(), tvals: BTreeMap::new(), cache: HashMap::new() };
        for (x, y) in &cv {
            let (kx, ky) = (self.it.vkey(x), self.it.vkey(y));
            circ.tvals.insert(kx, x.clone());
            circ.tvals.insert(ky, y.clone());
            circ.union(kx, ky);
        }
        Ok(circ)
    }
    pub fn wire_target(&mut self, c: Ty<'tcx>, g: usize, i: usize) -> R<V<'tcx>> {
        // build Target::Wire(Wire { gate, input })
        let td = self.find_adt("Target")?;
        let wd = self.find_adt("Wire")?;
        let sf = self.scalar(c)?;
        let tt = self.ty_of(td, &[sf]);
        let wt = self.ty_of(wd, &[]);
        let def = self.tcx.adt_def(wd);
        let fs: Vec<V<'tcx>> = def
            .non_enum_variant()
            .fields
            .iter()
            .map(|f| if f.name.as_str() == "gate" { V::Int(g as u128) } else { V::Int(i as u128) })
            .collect();
        let var = match self.tcx.adt_def(td).variants().iter_enumerated().find(|(_, v)| v.name.as_str() == "Wire") {
            Some((i, _)) => i.as_u32(),
            None => return unsup("Target::Wire"),
        };
        Ok(adt(tt, var, vec![adt(wt, 0, fs)]))
    }
    pub fn key(&mut self, v: &V<'tcx>) -> R<TermId> {
        let v = self.it.deref_all(v)?;
        Ok(self.it.vkey(&v))
    }

    /// constraints of a row with the given constants, over atoms L*, R*, B*
    pub fn row_constraints(&mut self, cc: &mut Circ<'tcx>, row: usize) -> R<Rc<Vec<Poly>>> {
        let consts = cc.rows[row].clone();
        let k: Vec<TermId> = consts.iter().map(|p| intern(Term::P(p.clone()))).collect();
        let ck = (format!("{}/{}", cc.c, cc.inner), k);
        if let Some(r) = cc.cache.get(&ck) {
            return Ok(r.clone());
        }
        let n = cc.shape.wires;
        let d = self.find_fn("gates::evaluate_all_constraints")?;
        let a = self.args_for(d, cc.c, cc.inner, &[]);
        let r = self.call(
            d,
            a,
            vec![fref(&consts), fref(&fvec(cc.fid, "L", n)), fref(&fvec(cc.fid, "R", n)), fref(&fvec(cc.fid, "B", n))],
        )?;
        let mut v = vec![];
        for x in self.it.seq_items(&r)?.iter() {
            v.push(x.poly()?);
        }
        let v = Rc::new(v);
        cc.cache.insert(ck, v.clone());
        Ok(v)
    }
    /// every gate constraint of the circuit over class atoms
    pub fn all_constraints(&mut self, cc: &mut Circ<'tcx>) -> R<Vec<(usize, usize, Poly)>> {
        let mut out = vec![];
        let n = cc.shape.wires;
        let grid = cc.shape.grid;
        for row in 0..cc.rows.len() {
            let cs = self.row_constraints(cc, row)?;
            let mut used = BTreeSet::new();
            for p in cs.iter() {
                used.extend(p.atoms());
            }
            let mut m = HashMap::new();
            for i in 0..n {
                for (pre, g) in [("L", row), ("R", row + 1), ("B", row + grid)] {
                    let at = name(&format!("{}{}", pre, i));
                    if used.contains(&at) {
                        let t = self.wire_target(cc.c, g, i)?;
                        let k = self.it.vkey(&t);
                        cc.tvals.entry(k).or_insert(t);
                        let cl = cc.find(k);
                        m.insert(at, Poly::atom(cc.fid, cl));
                    }
                }
            }
            for (j, p) in cs.iter().enumerate() {
                if p.t.is_empty() {
                    continue;
                }
                out.push((row, j, p.subst(&m)));
            }
        }
        Ok(out)
    }

    /// Values forced by the constraints, given the values of some targets.
    pub fn solve(&mut self, cc: &mut Circ<'tcx>, known: &[(V<'tcx>, Poly)]) -> R<Solved> {
        self.solve_nz(cc, known, &[])
    }
    /// the same, where the given polynomials are known not to vanish
    pub fn solve_nz(&mut self, cc: &mut Circ<'tcx>, known: &[(V<'tcx>, Poly)], nz: &[Poly]) -> R<Solved> {
        let mut s = Solved::default();
        s.nonzero = nz.to_vec();
        for (t, p) in known {
            let k = self.key(t)?;
            let cl = cc.find(k);
            if let Some(q) = s.val.get(&cl) {
                let d = q.sub(p);
                if !d.is_zero() {
                    s.asserts.push((usize::MAX, 0, d));
                }
            } else {
                s.val.insert(cl, p.clone());
            }
        }
        let cons = self.all_constraints(cc)?;
        let tv: BTreeSet<TermId> = cc.tvals.keys().cloned().collect();
        solve_core(cc.fid, cons, &|a| tv.contains(&a), &mut s);
        Ok(s)
    }

    /// Run the witness generators in dependency order. `known`: values of input targets.
    pub fn witness(&mut self, cc: &mut Circ<'tcx>, known: &[(V<'tcx>, Poly)]) -> R<Wit> {
        let mut w = Wit::default();
        for (t, p) in known {
            let k = self.key(t)?;
            let cl = cc.find(k);
            w.set(cl, p.clone(), "input");
        }
        let dep = self.trait_item("WitnessGenerator", "dependencies")?;
        let gen = self.trait_item("WitnessGenerator", "generate")?;
        let sf = self.scalar(cc.c)?;
        let pwt = {
            let d = self.find_adt("PartialWitness")?;
            self.ty_of(d, &[sf])
        };
        let consts = sref(cc.rows.iter().map(|r| fseq(r)).collect());
        let mut todo: Vec<(usize, V<'tcx>, Vec<V<'tcx>>, rustc_middle::ty::GenericArgsRef<'tcx>)> = vec![];
        for (i, g) in cc.gens.clone().iter().enumerate() {
            let gv = self.it.deref_all(g)?;
            let gt = match &gv {
                V::Adt(a) => a.ty,
                _ => return unsup("generator value"),
            };
            let ga = self.tcx.mk_args(&[gt.into(), sf.into()]);
            let ds = self.call(dep, ga, vec![ptr_to(gv.clone())])?;
            let ds = self.it.seq_items(&ds)?.to_vec();
            todo.push((i, gv, ds, ga));
        }
        loop {
            let mut progress = false;
            let mut next = vec![];
            for (i, g, ds, ga) in todo.into_iter() {
                let mut have = vec![];
                let mut ready = true;
                for d in &ds {
                    let k = self.key(d)?;
                    let cl = cc.find(k);
                    match w.val.get(&cl) {
                        Some(p) => have.push((d.clone(), p.clone())),
                        None => {
                            ready = false;
                            break;
                        }
                    }
                }
                if !ready {
                    next.push((i, g, ds, ga));
                    continue;
                }
                progress = true;
                let pw = self.partial(pwt, &have)?;
                let r = self.call(gen, ga, vec![ptr_to(g.clone()), consts.clone(), ptr_to(pw)])?;
                for (t, p) in self.partial_entries(&r)? {
                    let k = self.it.vkey(&t);
                    cc.tvals.entry(k).or_insert(t.clone());
                    let cl = cc.find(k);
                    let gname = match &g {
                        V::Adt(a) => self.it.head(a.ty),
                        _ => String::new(),
                    };
                    w.set(cl, p, &gname);
                }
            }
            todo = next;
            if !progress {
                break;
            }
        }
        for (_, g, _, _) in &todo {
            if let V::Adt(a) = g {
                w.stuck.push(self.it.head(a.ty));
            }
        }
        Ok(w)
    }
    pub fn partial(&mut self, pwt: Ty<'tcx>, have: &[(V<'tcx>, Poly)]) -> R<V<'tcx>> {
        let d = self.method("PartialWitness", "new")?;
        let ty::Adt(_, a) = pwt.kind() else { return unsup("PartialWitness") };
        let pw = self.call(d, a, vec![])?;
        let p = ptr_to(pw);
        let set = self.method("PartialWitness", "set_target")?;
        for (t, v) in have {
            self.call(set, a, vec![p.clone(), t.clone(), V::F(v.clone())])?;
        }
        self.it.deref_all(&p)
    }
    pub fn partial_entries(&mut self, r: &V<'tcx>) -> R<Vec<(V<'tcx>, Poly)>> {
        let V::Adt(a) = r else { return unsup("witness value") };
        for f in &a.f {
            if let V::Map(m) = f {
                let mut out = vec![];
                for (_, t, v) in m.ordered() {
                    out.push((t, v.poly()?));
                }
                return Ok(out);
            }
        }
        unsup("PartialWitness has no map")
    }
    /// constraint polynomials of the circuit under witness values (unset wires are zero), nonzero ones
    pub fn violated(&mut self, cc: &mut Circ<'tcx>, w: &Wit) -> R<Vec<(usize, usize, Poly)>> {
        let cons = self.all_constraints(cc)?;
        let mut out = vec![];
        for (r, j, p) in cons {
            let mut m = HashMap::new();
            for a in p.atoms() {
                if cc.tvals.contains_key(&a) {
                    m.insert(a, w.val.get(&a).cloned().unwrap_or(Poly::zero(cc.fid)));
                }
            }
            let q = p.subst(&m);
            if !q.is_zero() {
                out.push((r, j, q.normalised()));
            }
        }
        Ok(out)
    }
}

/// Propagate: a constraint with one unknown, linear in it (or a k-th power with k prime to p-1) and with a
/// coefficient that cannot vanish, forces the unknown.
pub fn solve_core(fid: FieldId, cons: Vec<(usize, usize, Poly)>, is_var: &dyn Fn(TermId) -> bool, s: &mut Solved) {
    let mut pend = cons;
    loop {
        let mut progress = false;
        let mut next = vec![];
        for (row, j, p) in pend.into_iter() {
            let p = if p.atoms().iter().any(|a| s.val.contains_key(a)) { p.subst(&s.val) } else { p };
            let unk: Vec<TermId> = p.atoms().into_iter().filter(|a| is_var(*a) && !s.val.contains_key(a)).collect();
            if unk.is_empty() {
                if !p.is_zero() {
                    s.asserts.push((row, j, p.clone()));
                }
                continue;
            }
            if unk.len() == 1 {
                let u = unk[0];
                if let Some((a, b, k)) = split_linear(&p, u) {
                    let mut ok = a.as_const().map(|c| !c.is_zero()).unwrap_or(false);
                    if !ok && b.as_const().map(|c| !c.is_zero()).unwrap_or(false) {
                        // a nonzero constant remainder forces the coefficient to be nonzero
                        ok = true;
                        s.nonzero.push(a.clone());
                    }
                    if !ok {
                        ok = s.nonzero.iter().any(|n| proportional(n, &a));
                    }
                    if ok && k == 1 {
                        let v = b.neg().mul(&a.inv());
                        s.val.insert(u, v);
                        progress = true;
                        continue;
                    }
                    if ok && k > 1 {
                        let pm1 = field_p(fid) - 1u32;
                        if crate::model::modinv(&BigUint::from(k as u64), &pm1).is_some() {
                            let rhs = b.neg().mul(&a.inv());
                            let v = root(&rhs, k);
                            s.val.insert(u, v);
                            progress = true;
                            continue;
                        }
                    }
                }
            }
            next.push((row, j, p));
        }
        pend = next;
        if !progress {
            break;
        }
    }
    s.open = pend;
}

#[derive(Default, Clone)]
pub struct Wit {
    pub val: HashMap<TermId, Poly>,
    pub conflicts: Vec<String>,
    pub stuck: Vec<String>,
}
impl Wit {
    pub fn set(&mut self, cl: TermId, p: Poly, who: &str) {
        match self.val.get(&cl) {
            Some(q) => {
                let d = q.sub(&p);
                if !d.is_zero() {
                    self.conflicts.push(format!("{} sets {} to {} but it is {}", who, show(cl), p.show(), q.show()));
                }
            }
            None => {
                self.val.insert(cl, p);
            }
        }
    }
}

impl<'tcx> Circ<'tcx> {
    pub fn find(&self, k: TermId) -> TermId {
        let mut k = k;
        while let Some(&p) = self.uf.get(&k) {
            k = p
        }
        k
    }
    pub fn union(&mut self, a: TermId, b: TermId) {
        let (a, b) = (self.find(a), self.find(b));
        if a != b {
            self.uf.insert(a, b);
        }
    }
}

/// p = a*u^k + b with a, b free of u
pub fn split_linear(p: &Poly, u: TermId) -> Option<(Poly, Poly, i32)> {
    let mut k = 0;
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for (m, c) in p.t.iter() {
        match m.iter().find(|x| x.0 == u) {
            None => {
                b.insert(m.clone(), c.clone());
            }
            Some(&(_, e)) => {
                if k == 0 {
                    k = e
                }
                if e != k || e < 1 {
                    return None;
                }
                let m2: Vec<_> = m.iter().cloned().filter(|x| x.0 != u).collect();
                a.insert(Rc::new(m2), c.clone());
            }
        }
    }
    // u must not hide inside an inverse
    for (m, _) in b.iter().chain(a.iter()) {
        for &(x, _) in m.iter() {
            if let Term::Inv(q) = term(x) {
                let mut s = BTreeSet::new();
                q.deep_atoms(&mut s);
                if s.contains(&u) {
                    return None;
                }
            }
        }
    }
    Some((Poly { fid: p.fid, t: Rc::new(a) }, Poly { fid: p.fid, t: Rc::new(b) }, k))
}
pub fn monic(p: &Poly) -> Poly {
    let p = p.normalised();
    if p.t.is_empty() {
        return p;
    }
    let (_, l) = p.t.iter().next_back().unwrap();
    let q = field_p(p.fid);
    let li = l.modpow(&(&q - 2u32), &q);
    p.scale(&li)
}
pub fn proportional(a: &Poly, b: &Poly) -> bool {
    monic(a) == monic(b)
}
pub fn root(p: &Poly, k: i32) -> Poly {
    let ka = p.as_atom().unwrap_or_else(|| intern(Term::P(p.clone())));
    if let Some(c) = p.as_const() {
        let m = field_p(p.fid);
        let pm1 = &m - 1u32;
        if let Some(e) = crate::model::modinv(&BigUint::from(k as u64), &pm1) {
            return Poly::constant(p.fid, c.modpow(&e, &m));
        }
    }
    let at = app(&format!("root{}", k), vec![ka]);
    set_rule(at, k, Poly::atom(p.fid, ka));
    Poly::atom(p.fid, at)
}
#[allow(dead_code)]
fn _one() -> BigUint {
    BigUint::one()
}
