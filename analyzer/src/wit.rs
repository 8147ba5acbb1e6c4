//! Witness generation for whole circuits.
use crate::base::*;
use crate::circ::Circ;
use crate::interp::*;
use crate::poly::*;
use crate::proto::*;
use crate::val::*;
use std::collections::HashMap;

/// public inputs of each program
const WPI: [usize; 10] = [3, 9, 20, 2, 1, 0, 37, 4, 2, 7];

struct Prog<'tcx> {
    given: Vec<(V<'tcx>, Poly)>,
    want: Vec<(V<'tcx>, Poly)>,
    /// values of all public inputs
    pis: Vec<Poly>,
}

impl<'tcx> Ctx<'tcx> {
    pub fn check_witness(&mut self) -> R<()> {
        let r = self.scoped(|s| s.check_witness_());
        set_map_order(0);
        r
    }
    fn check_witness_(&mut self) -> R<()> {
        let base = self.it.hooks.clone();
        let site = {
            let d = self.method("Circuit", "generate_partial_witness")?;
            self.site(d)
        };
        for (ci, (c, inner)) in self.curve_pairs()?.into_iter().enumerate() {
            let k = self.snark(c, inner)?;
            for prog in 0..WPI.len() {
                if ci > 0 && prog > 3 {
                    continue;
                }
                for order in 0..3 {
                    self.it.hooks = base.clone();
                    self.hook_protocol(k.pd)?;
                    let key = format!("{} program {} order {}", k.name, prog, order);
                    let (k, s2, k2) = (&k, site.clone(), key.clone());
                    self.unit(&key, &site, |s| {
                        let r = s.witness_case(k, prog, order, &k2, &s2);
                        set_map_order(0);
                        r
                    });
                }
            }
        }
        Ok(())
    }
    fn witness_program(&mut self, k: &Snark<'tcx>, b: &V<'tcx>, prog: usize) -> R<Prog<'tcx>> {
        let fid = k.pd.sf;
        let list = |s: &mut Self, v: V<'tcx>| -> R<Vec<V<'tcx>>> { Ok(s.it.seq_items(&v)?.to_vec()) };
        let pt = self.call_m("CircuitBuilder", "add_public_inputs", &[k.c], vec![b.clone(), V::Int(WPI[prog] as u128)])?;
        let pt = list(self, pt)?;
        let pa = self.atoms_named(fid, "pi", WPI[prog]);
        let mut pr = Prog { given: pt.iter().cloned().zip(pa.iter().cloned()).collect(), want: vec![], pis: pa.clone() };
        macro_rules! b {
            ($m:expr $(, $a:expr)*) => {{
                let args = vec![b.clone() $(, $a)*];
                self.call_m("CircuitBuilder", $m, &[k.c], args)?
            }};
        }
        match prog {
            0 => {
                // arithmetic directly on public inputs
                let z = b!("mul", pt[0].clone(), pt[1].clone());
                let y = b!("mul_add", z.clone(), pt[2].clone(), pt[0].clone());
                pr.want.push((z, pa[0].mul(&pa[1])));
                pr.want.push((y, pa[0].mul(&pa[1]).mul(&pa[2]).add(&pa[0])));
            }
            1 => {
                // generators which depend on public inputs themselves
                for i in [0usize, 5, 6, 8] {
                    let z = b!("inv", pt[i].clone());
                    let s = b!("square", z.clone());
                    pr.want.push((z, pa[i].inv()));
                    pr.want.push((s, pa[i].inv().mul(&pa[i].inv())));
                }
                let q = b!("div", pt[1].clone(), pt[7].clone());
                pr.want.push((q, pa[1].mul(&pa[7].inv())));
            }
            2 => {
                // several public input gates, all of whose inputs are used
                let s = b!("add_many", sref(pt.clone()));
                let mut t = Poly::zero(fid);
                for p in &pa {
                    t = t.add(p);
                }
                pr.want.push((s, t));
                let m = b!("mul", pt[8].clone(), pt[17].clone());
                pr.want.push((m, pa[8].mul(&pa[17])));
                let m = b!("mul", pt[19].clone(), pt[18].clone());
                pr.want.push((m, pa[19].mul(&pa[18])));
            }
            3 => {
                // a chain of dependent generators through virtual targets, added in the reverse order
                let v = b!("add_virtual_targets", V::Int(5));
                let v = list(self, v)?;
                let mut val = pa[0].clone();
                let mut vals = vec![val.clone()];
                for _ in 0..4 {
                    val = val.mul(&pa[1]);
                    vals.push(val.clone());
                }
                for i in (0..4).rev() {
                    let z = b!("mul", v[i].clone(), pt[1].clone());
                    b!("copy", z, v[i + 1].clone());
                }
                b!("copy", pt[0].clone(), v[0].clone());
                for i in 0..5 {
                    pr.want.push((v[i].clone(), vals[i].clone()));
                }
            }
            4 => {
                // hashes and curve arithmetic on given virtual targets
                let v = b!("add_virtual_targets", V::Int(3));
                let v = list(self, v)?;
                let va = self.atoms_named(fid, "v", 3);
                for i in 0..3 {
                    pr.given.push((v[i].clone(), va[i].clone()));
                }
                let d = b!("sub", v[0].clone(), v[1].clone());
                let e = b!("div", d, v[2].clone());
                let e2 = b!("add", e.clone(), pt[0].clone());
                pr.want.push((e, va[0].sub(&va[1]).mul(&va[2].inv())));
                pr.want.push((e2, va[0].sub(&va[1]).mul(&va[2].inv()).add(&pa[0])));
            }
            5 => {
                // no inputs at all
                let x = b!("constant_wire", V::F(Poly::int(fid, 7)));
                let y = b!("square", x);
                let z = b!("neg", y.clone());
                let w = b!("inv", z.clone());
                pr.want.push((y, Poly::int(fid, 49)));
                pr.want.push((z, Poly::int(fid, 49).neg()));
                pr.want.push((w, Poly::int(fid, 49).neg().inv()));
            }
            6 => {
                // public inputs which are not given but computed
                pr.given.truncate(2);
                pr.pis = vec![pa[0].clone(), pa[1].clone()];
                let mut last = pt[1].clone();
                let mut lv = pa[1].clone();
                for i in 2..WPI[prog] {
                    let z = b!("mul", last.clone(), pt[0].clone());
                    lv = lv.mul(&pa[0]);
                    b!("copy", z.clone(), pt[i].clone());
                    last = if i % 2 == 0 { z } else { pt[i].clone() };
                    pr.pis.push(lv.clone());
                }
                let i = b!("inv", pt[WPI[prog] - 1].clone());
                pr.want.push((i, lv.inv()));
            }
            7 => {
                // public inputs joined with one another and with wires
                for (x, y) in [(0usize, 1usize), (3, 2)] {
                    b!("copy", pt[x].clone(), pt[y].clone());
                }
                pr.given = vec![(pt[1].clone(), pa[1].clone()), (pt[3].clone(), pa[3].clone())];
                pr.pis = vec![pa[1].clone(), pa[1].clone(), pa[3].clone(), pa[3].clone()];
                let z = b!("mul", pt[0].clone(), pt[2].clone());
                let z = b!("inv", z);
                pr.want.push((z, pa[1].mul(&pa[3]).inv()));
            }
            8 => {
                // a boolean decision
                let x = b!("sub", pt[0].clone(), pt[0].clone());
                let c = b!("is_zero", x);
                let s = b!("select", c.clone(), pt[1].clone(), pt[0].clone());
                pr.want.push((c, Poly::one(fid)));
                pr.want.push((s, pa[1].clone()));
            }
            _ => {
                // one value reaching many places
                let z = b!("mul", pt[6].clone(), pt[6].clone());
                for i in 0..6 {
                    let y = b!("add", z.clone(), pt[i].clone());
                    let y2 = b!("mul", y.clone(), z.clone());
                    let q = pa[6].mul(&pa[6]);
                    pr.want.push((y, q.add(&pa[i])));
                    pr.want.push((y2, q.add(&pa[i]).mul(&q)));
                }
            }
        }
        Ok(pr)
    }
    fn witness_case(&mut self, k: &Snark<'tcx>, prog: usize, order: u8, key: &str, site: &str) -> R<()> {
        let fid = k.pd.sf;
        let sf = self.scalar(k.c)?;
        let b = self.new_builder(k.c)?;
        let pr = self.witness_program(k, &b, prog)?;
        let mut before: Circ<'tcx> = self.circ(&b, k.c, k.inner)?;
        let bv = self.it.deref_all(&b)?;
        let cv = self.call_m("CircuitBuilder", "build", &[k.c], vec![bv])?;
        let rowsv = self.get_field(&cv, "gate_constants")?;
        before.rows.clear();
        for r in self.it.seq_items(&rowsv)?.iter() {
            let r = self.polys_of(r)?;
            before.rows.push(r);
        }
        let n = before.rows.len();
        let without = self.get_field(&cv, "num_gates_without_pis")?.int()? as usize;
        let pwt = {
            let d = self.find_adt("PartialWitness")?;
            self.ty_of(d, &[sf])
        };
        let pw = self.partial(pwt, &pr.given)?;
        set_map_order(order);
        let part = self.call_m("Circuit", "generate_partial_witness", &[k.c], vec![ptr_to(cv.clone()), pw])?;
        let w = {
            let d = self.method("Witness", "from_partial")?;
            let a = self.tcx.mk_args(&[sf.into()]);
            self.call(d, a, vec![ptr_to(part.clone()), V::Int(n as u128)])?
        };
        set_map_order(0);
        let wr = self.get_field(&w, "wire_values")?;
        let mut wires: Vec<Vec<Poly>> = vec![];
        for r in self.it.seq_items(&wr)?.iter() {
            wires.push(self.polys_of(r)?);
        }
        let shape_ok = wires.len() == n && wires.iter().all(|r| r.len() == before.shape.wires);
        self.check(&format!("{} shape", key), site, "the witness has a value for every wire of every gate", shape_ok, || format!("{} rows of {}", wires.len(), n));
        if !shape_ok {
            return Ok(());
        }
        // gates
        let mut bad = None;
        let grid = before.shape.grid;
        for row in 0..n {
            let cs = self.row_constraints(&mut before, row)?;
            let mut m = HashMap::new();
            for i in 0..before.shape.wires {
                for (pre, g) in [("L", row), ("R", row + 1), ("B", row + grid)] {
                    m.insert(name(&format!("{}{}", pre, i)), wires[g % n][i].clone());
                }
            }
            for (j, p) in cs.iter().enumerate() {
                let q = p.subst(&m);
                if !q.is_zero() {
                    bad.get_or_insert((row, j, q.normalised().show()));
                }
            }
        }
        self.check(&format!("{} gates", key), site, "the generated witness satisfies every gate of the circuit", bad.is_none(), || format!("{:?}", bad));
        // copies
        let mut vals: HashMap<Node, Poly> = HashMap::new();
        for (t, v) in self.partial_entries(&part)? {
            let nd = self.node(&t, without, &before.shape)?;
            vals.insert(nd, v);
        }
        let mut bad = None;
        for (x, y) in before.copies.clone() {
            let v: Vec<Poly> = [x, y]
                .iter()
                .map(|t| {
                    Ok(match self.node(t, without, &before.shape)? {
                        Node::Wire(g, i) => wires[g][i].clone(),
                        nd => vals.get(&nd).cloned().unwrap_or(Poly::atom(fid, name(&format!("unset {:?}", nd)))),
                    })
                })
                .collect::<R<_>>()?;
            if !v[0].sub(&v[1]).is_zero() {
                bad.get_or_insert((v[0].show(), v[1].show()));
            }
        }
        self.check(&format!("{} copies", key), site, "the generated witness satisfies every copy constraint", bad.is_none(), || format!("{:?}", bad));
        // values
        for (i, (t, p)) in pr.want.iter().enumerate() {
            let got = match self.node(t, without, &before.shape)? {
                Node::Wire(g, j) => Some(wires[g][j].clone()),
                nd => vals.get(&nd).cloned(),
            };
            let ok = got.as_ref().map(|g| g.sub(p).is_zero()) == Some(true);
            self.check(&format!("{} value {}", key, i), site, "each target gets the value of the expression it stands for", ok, || match got {
                Some(g) => format!("{} instead of {}", g.show(), p.show()),
                None => "no value".into(),
            });
        }
        let got = self.call_m("Circuit", "get_public_inputs", &[k.c], vec![ptr_to(cv), ptr_to(w)])?;
        let got = self.polys_of(&got)?;
        let ok = got.len() == pr.pis.len() && got.iter().zip(&pr.pis).all(|(a, b)| a.sub(b).is_zero());
        self.check(&format!("{} public inputs", key), site, "the public inputs read from the witness are those given or computed", ok, || format!("{:?}", got.iter().map(|p| p.show()).collect::<Vec<_>>()));
        Ok(())
    }
}
pub use crate::constr::Node;
