//! The prover's polynomials and the construction of circuits.
use crate::base::*;
use crate::circ::Circ;
use crate::interp::*;
use crate::poly::*;
use crate::proto::*;
use crate::val::*;
use rustc_middle::ty;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

impl<'tcx> Ctx<'tcx> {
    /// the polynomials which the prover divides and commits to
    pub fn check_quotient(&mut self) -> R<()> {
        self.scoped(|s| s.check_quotient_())
    }
    fn check_quotient_(&mut self) -> R<()> {
        let base = self.it.hooks.clone();
        let vsite = {
            let d = self.method("Circuit", "vanishing_poly")?;
            self.site(d)
        };
        let psite = {
            let d = self.find_fn("plonk_util::permutation_polynomial")?;
            self.site(d)
        };
        for (c, inner) in self.curve_pairs()? {
            let k = self.snark(c, inner)?;
            self.it.hooks = base.clone();
            self.hook_protocol(k.pd)?;
            for log in [1usize, 2, 3] {
                let key = format!("{} log degree {}", k.name, log);
                let (k, s2, k2) = (&k, vsite.clone(), key.clone());
                self.unit(&format!("{} vanishing", key), &vsite, |s| s.vanishing_case(k, log, &k2, &s2));
                for row in 0..1usize << log {
                    let (s2, k2) = (psite.clone(), format!("{} row {}", key, row));
                    self.unit(&k2.clone(), &psite, |s| s.permutation_case(k, log, row, &k2, &s2));
                }
            }
        }
        Ok(())
    }
    fn vanishing_case(&mut self, k: &Snark<'tcx>, log: usize, key: &str, site: &str) -> R<()> {
        let n = 1usize << log;
        let fid = k.pd.sf;
        let sf = self.scalar(k.c)?;
        let circ = self.circuit_value(k, log, 0, 1)?;
        let one = Poly::one(fid);
        // few symbols in the products, fixed values elsewhere
        let ws: Vec<Vec<Poly>> = (0..k.nw)
            .map(|j| {
                let mut v = self.atoms_named(fid, &format!("w8n{}_", j), 8 * n);
                if j >= 1 && j < k.nr {
                    v = (0..8 * n).map(|i| fixed(fid, 7000 * j + i)).collect();
                }
                v
            })
            .collect();
        let sg: Vec<Vec<Poly>> = (0..k.nr).map(|j| if j == 1 { self.atoms_named(fid, "sg", 8 * n) } else { (0..8 * n).map(|i| fixed(fid, 500_000 + 7000 * j + i)).collect() }).collect();
        let cs: Vec<Vec<Poly>> = (0..k.nc).map(|j| self.atoms_named(fid, &format!("c8n{}_", j), 8 * n)).collect();
        let circ = self.set_field(&circ, "s_sigma_values_8n", seq(sg.iter().map(|v| fseq(v)).collect()))?;
        let circ = self.set_field(&circ, "constants_8n", seq(cs.iter().map(|v| fseq(v)).collect()))?;
        let z = self.atoms_named(fid, "z", n);
        let ch = self.atoms_named(fid, "ch", 3);
        let (alpha, beta, gamma) = (ch[0].clone(), ch[1].clone(), ch[2].clone());
        let ncons = 2;
        let saved = self.it.hooks.clone();
        self.hook_constraints(ncons);
        let cap: Rc<RefCell<Vec<Vec<Poly>>>> = Rc::new(RefCell::new(vec![]));
        let (c2, pv) = (cap.clone(), self.polynomial(sf, &[one.clone()])?);
        self.it.hooks.insert(
            "Polynomial::from_evaluations".into(),
            Rc::new(move |it, _, a, _| {
                let v: Vec<Poly> = it.seq_items(&a[0])?.iter().map(|x| x.poly()).collect::<R<_>>()?;
                c2.borrow_mut().push(v);
                Ok(Some(pv.clone()))
            }),
        );
        let d = self.method("Circuit", "vanishing_poly")?;
        let ga = self.tcx.mk_args(&[k.c.into(), k.inner.into()]);
        let wv = sref(ws.iter().map(|v| fseq(v)).collect());
        let r = self.call(d, ga, vec![ptr_to(circ), wv, V::F(alpha.clone()), V::F(beta.clone()), V::F(gamma.clone()), fref(&z)]);
        self.it.hooks = saved;
        r?;
        let got = cap.borrow().clone();
        if got.len() != 1 || got[0].len() != 8 * n {
            return unsup("the vanishing polynomial is not interpolated from one set of 8n values");
        }
        let grid = self.const_usize("GRID_WIDTH")?;
        let w8 = self.root_of(k, log + 3)?;
        let sh = self.shifts(k)?;
        let zat = |x: &Poly| horner(&z, x);
        for i in 0..8 * n {
            let x = w8.pow(i as u64);
            let (ir, ib) = ((i + 8) % (8 * n), (i + 8 * grid) % (8 * n));
            let col = |v: &Vec<Vec<Poly>>, i: usize| -> Vec<Poly> { v.iter().map(|c| c[i].clone()).collect() };
            let cons = constraint_atoms(&mut self.it, &[col(&cs, i), col(&ws, i), col(&ws, ir), col(&ws, ib)], ncons);
            let l1 = if i == 0 { one.clone() } else { x.pow(n as u64).sub(&one).mul(&Poly::int(fid, n as u64).mul(&x.sub(&one)).inv()) };
            let (zx, zg) = (zat(&x), zat(&w8.pow(ir as u64)));
            let (mut f, mut g) = (one.clone(), one.clone());
            for j in 0..k.nr {
                f = f.mul(&ws[j][i].add(&beta.mul(&sh[j]).mul(&x)).add(&gamma));
                g = g.mul(&ws[j][i].add(&beta.mul(&sg[j][i])).add(&gamma));
            }
            let mut terms = vec![l1.mul(&zx.sub(&one)), f.mul(&zx).sub(&g.mul(&zg))];
            terms.extend(cons);
            let want = horner(&terms, &alpha);
            self.check(&format!("{} vanishing polynomial at point {}", key, i), site, "the prover's vanishing polynomial takes the value which the verifier's equation prescribes", got[0][i].sub(&want).normalised().is_zero(), || {
                format!("difference {}", got[0][i].sub(&want).show().chars().take(200).collect::<String>())
            });
        }
        Ok(())
    }
    fn permutation_case(&mut self, k: &Snark<'tcx>, log: usize, row: usize, key: &str, site: &str) -> R<()> {
        let n = 1usize << log;
        let fid = k.pd.sf;
        let sf = self.scalar(k.c)?;
        let one = Poly::one(fid);
        let w = self.root_of(k, log)?;
        let rows: Vec<Vec<Poly>> = (0..n).map(|i| {
            let a = self.atoms_named(fid, "w", k.nw);
            (0..k.nw).map(|j| if i == row && (j + row) % 3 == 0 { a[j].clone() } else { fixed(fid, 1000 * i + j) }).collect()
        }).collect();
        let sg: Vec<Vec<Poly>> = (0..k.nr)
            .map(|j| {
                let s = self.atoms_named(fid, &format!("sg{}_", j), 8 * n);
                (0..8 * n).map(|i| if i == 8 * row && (j + row) % 3 == 1 { s[i].clone() } else { fixed(fid, 300_000 + 1000 * j + i) }).collect()
            })
            .collect();
        let (beta, gamma) = if row + 1 < n { (fixed(fid, 1), fixed(fid, 2)) } else { (fixed(fid, 3), fixed(fid, 4)) };
        let wit = self.witness_value(k, &rows)?;
        let sub: Vec<Poly> = (0..n).map(|i| w.pow(i as u64)).collect();
        let r = self.call_f("plonk_util::permutation_polynomial", &[sf], vec![V::Int(n as u128), fref(&sub), ptr_to(wit), sref(sg.iter().map(|v| fseq(v)).collect()), V::F(beta.clone()), V::F(gamma.clone())])?;
        let z = self.polys_of(&r)?;
        self.check(&format!("{} length", key), site, "the permutation polynomial has one value per row", z.len() == n, || format!("{} values", z.len()));
        if z.len() != n {
            return Ok(());
        }
        self.check(&format!("{} start", key), site, "Z(1) = 1", z[0] == one, || z[0].show());
        let sh = self.shifts(k)?;
        for i in 0..n - 1 {
            let (mut f, mut g) = (one.clone(), one.clone());
            for j in 0..k.nr {
                f = f.mul(&rows[i][j].add(&beta.mul(&sh[j]).mul(&sub[i])).add(&gamma));
                g = g.mul(&rows[i][j].add(&beta.mul(&sg[j][8 * i])).add(&gamma));
            }
            let d = z[i + 1].mul(&g).sub(&z[i].mul(&f)).normalised();
            self.check(&format!("{} step {}", key, i), site, "Z(gx) g'(x) = Z(x) f'(x) on every row but the last", d.is_zero(), || d.show().chars().take(200).collect());
        }
        Ok(())
    }

    /// circuits represent what was asked of the builder
    pub fn check_build(&mut self) -> R<()> {
        self.scoped(|s| s.check_build_())
    }
    fn check_build_(&mut self) -> R<()> {
        let base = self.it.hooks.clone();
        let site = {
            let d = self.method("CircuitBuilder", "build")?;
            self.site(d)
        };
        for (ci, (c, inner)) in self.curve_pairs()?.into_iter().enumerate() {
            let k = self.snark(c, inner)?;
            for prog in 0..NPI.len() {
                if ci > 0 && prog > 2 {
                    continue;
                }
                self.it.hooks = base.clone();
                self.hook_protocol(k.pd)?;
                let key = format!("{} program {}", k.name, prog);
                let (k, s2, k2) = (&k, site.clone(), key.clone());
                self.unit(&key, &site, |s| s.build_case(k, prog, &k2, &s2));
            }
        }
        Ok(())
    }
    fn b_call(&mut self, k: &Snark<'tcx>, m: &str, mut args: Vec<V<'tcx>>, b: &V<'tcx>) -> R<V<'tcx>> {
        args.insert(0, b.clone());
        self.call_m("CircuitBuilder", m, &[k.c], args)
    }
    pub fn build_program(&mut self, k: &Snark<'tcx>, b: &V<'tcx>, prog: usize) -> R<()> {
        let fid = k.pd.sf;
        let cst = |i: usize| V::F(fixed(fid, 40 + i));
        let list = |s: &mut Self, v: V<'tcx>| -> R<Vec<V<'tcx>>> { Ok(s.it.seq_items(&v)?.to_vec()) };
        let npi = NPI[prog];
        let pis = self.b_call(k, "add_public_inputs", vec![V::Int(npi as u128)], b)?;
        let pis = list(self, pis)?;
        match prog {
            0 => {
                let x = self.b_call(k, "constant_wire", vec![cst(0)], b)?;
                let y = self.b_call(k, "constant_wire", vec![cst(1)], b)?;
                self.b_call(k, "add", vec![x, y], b)?;
            }
            1 => {
                let v = self.b_call(k, "add_virtual_target", vec![], b)?;
                let y = self.b_call(k, "mul", vec![v.clone(), pis[0].clone()], b)?;
                self.b_call(k, "copy", vec![y.clone(), v.clone()], b)?;
                self.b_call(k, "copy", vec![v, y], b)?;
            }
            2 => {
                // chains and trees of copies, in both directions, with repetitions
                let vs = self.b_call(k, "add_virtual_targets", vec![V::Int(4)], b)?;
                let vs = list(self, vs)?;
                for (i, j) in [(0usize, 1usize), (2, 3), (1, 0), (3, 1), (0, 0)] {
                    self.b_call(k, "copy", vec![vs[i].clone(), vs[j].clone()], b)?;
                }
                for i in 0..9 {
                    self.b_call(k, "copy", if i % 2 == 0 { vec![pis[i].clone(), vs[i % 4].clone()] } else { vec![vs[i % 4].clone(), pis[i].clone()] }, b)?;
                }
            }
            3 => {
                let mut acc = pis[0].clone();
                for p in &pis[1..] {
                    acc = self.b_call(k, "mul", vec![acc, p.clone()], b)?;
                }
                self.b_call(k, "assert_zero", vec![acc], b)?;
            }
            4 => {
                let a = self.b_call(k, "constant_wire", vec![cst(2)], b)?;
                for p in &pis {
                    self.b_call(k, "copy", vec![a.clone(), p.clone()], b)?;
                }
                let s = self.b_call(k, "sub", vec![pis[6].clone(), pis[5].clone()], b)?;
                self.b_call(k, "assert_zero", vec![s], b)?;
            }
            5 => {
                // two classes joined at the end
                let vs = self.b_call(k, "add_virtual_targets", vec![V::Int(6)], b)?;
                let vs = list(self, vs)?;
                let x = self.b_call(k, "add", vec![vs[0].clone(), vs[1].clone()], b)?;
                let y = self.b_call(k, "mul", vec![vs[2].clone(), vs[3].clone()], b)?;
                for (i, j) in [(0usize, 2usize), (4, 0), (1, 5), (5, 3), (4, 5)] {
                    self.b_call(k, "copy", vec![vs[i].clone(), vs[j].clone()], b)?;
                }
                self.b_call(k, "copy", vec![x, y], b)?;
            }
            6 => {
                let s = self.b_call(k, "add_many", vec![sref(pis.clone())], b)?;
                self.b_call(k, "copy", vec![s, pis[18].clone()], b)?;
            }
            8 => {
                // wires of the same gate, of the same column, and of both, copied directly
                for i in 0..3 {
                    let a = self.b_call(k, "constant_wire", vec![cst(i)], b)?;
                    self.b_call(k, "square", vec![a], b)?;
                }
                let g = self.circ(b, k.c, k.inner)?.rows.len();
                for (x, y) in [((0, 0), (0, 1)), ((g - 1, 2), (g - 1, 3)), ((0, 5), (1, 5)), ((1, 1), (2, 4)), ((g - 1, 5), (0, 5)), ((2, 2), (2, 2))] {
                    let (x, y) = (self.wire_target(k.c, x.0, x.1)?, self.wire_target(k.c, y.0, y.1)?);
                    self.b_call(k, "copy", vec![x, y], b)?;
                }
            }
            9 => {
                // public inputs among each other and with wires of the first gate
                let a = self.b_call(k, "constant_wire", vec![cst(3)], b)?;
                for (i, j) in [(0usize, 1usize), (7, 6), (2, 8), (10, 3), (9, 11), (4, 4), (13, 15)] {
                    self.b_call(k, "copy", vec![pis[i].clone(), pis[j].clone()], b)?;
                }
                self.b_call(k, "copy", vec![pis[16].clone(), a], b)?;
                let x = self.wire_target(k.c, 0, 0)?;
                self.b_call(k, "copy", vec![x, pis[17].clone()], b)?;
            }
            10 => {
                // virtual targets whose numbers coincide with gates and public inputs
                let vs = self.b_call(k, "add_virtual_targets", vec![V::Int(3)], b)?;
                let vs = list(self, vs)?;
                for i in 0..3 {
                    self.b_call(k, "constant_wire", vec![cst(i)], b)?;
                }
                for i in 0..3 {
                    let x = self.wire_target(k.c, i, i)?;
                    self.b_call(k, "copy", vec![vs[i].clone(), x], b)?;
                    self.b_call(k, "copy", vec![pis[i].clone(), vs[i].clone()], b)?;
                }
            }
            _ => {
                for i in 0..5 {
                    let a = self.b_call(k, "constant_wire", vec![cst(i)], b)?;
                    self.b_call(k, "mul", vec![a, pis[i].clone()], b)?;
                }
            }
        }
        Ok(())
    }
    fn build_case(&mut self, k: &Snark<'tcx>, prog: usize, key: &str, site: &str) -> R<()> {
        let fid = k.pd.sf;
        let b = self.new_builder(k.c)?;
        self.build_program(k, &b, prog)?;
        let before: Circ<'tcx> = self.circ(&b, k.c, k.inner)?;
        let ngen = before.gens.len();
        let bv = self.it.deref_all(&b)?;
        let cv = self.call_m("CircuitBuilder", "build", &[k.c], vec![bv])?;
        let rowsv = self.get_field(&cv, "gate_constants")?;
        let mut rows: Vec<Vec<Poly>> = vec![];
        for r in self.it.seq_items(&rowsv)?.iter() {
            rows.push(self.polys_of(r)?);
        }
        let n = rows.len();
        let ck = |s: &mut Self, what: &str, rule: &str, ok: bool, d: String| s.check(&format!("{} {}", key, what), site, rule, ok, || d);
        ck(self, "degree", "the number of gates is a power of two", n.is_power_of_two(), format!("{} gates", n));
        if !n.is_power_of_two() {
            return Ok(());
        }
        let log = n.trailing_zeros() as usize;
        ck(self, "gates", "the gates asked for come first, in order", rows.len() >= before.rows.len() && rows[..before.rows.len()] == before.rows[..], "a gate differs".into());
        let np = self.get_field(&cv, "num_public_inputs")?.int()? as usize;
        let without = self.get_field(&cv, "num_gates_without_pis")?.int()? as usize;
        let npi = NPI[prog];
        ck(self, "public inputs", "every public input is counted", np == npi, format!("{} instead of {}", np, npi));
        // the kinds of gates after the ones asked for
        let names = self.gate_prefixes(k)?;
        let kind = |r: &Vec<Poly>| -> Option<String> {
            names.iter().find(|(p, _)| p.iter().enumerate().all(|(i, b)| r.get(i) == Some(&Poly::int(fid, *b as u64)))).map(|x| x.1.clone())
        };
        let pig = (npi + k.nw - 1) / k.nw;
        let mut bad = None;
        for (i, r) in rows.iter().enumerate().skip(before.rows.len()) {
            let kd = kind(r);
            let want = if i >= without && i < without + 2 * pig && (i - without) % 2 == 0 { "PublicInputGate" } else { "BufferGate" };
            if kd.as_deref() != Some(want) {
                bad.get_or_insert((i, kd.clone(), want));
            }
        }
        ck(self, "added gates", "public inputs sit in public input gates, each followed by a buffer; all other added gates are buffers", bad.is_none() && without + 2 * pig <= n, format!("{:?}", bad));
        // blinding: random values in the rows that were added for it
        let blind = without.saturating_sub(before.rows.len());
        ck(self, "blinding rows", "a row of random values for each point at which wire polynomials are opened", blind >= 3, format!("{} rows", blind));
        let gens = self.get_field(&cv, "generators")?;
        let gens = self.it.seq_items(&gens)?.to_vec();
        ck(self, "generators", "no witness generator is dropped", gens.len() >= ngen, format!("{} of {}", gens.len(), ngen));
        let mut random = BTreeSet::new();
        {
            let pwd = self.find_adt("PartialWitness")?;
            let sf = self.scalar(k.c)?;
            let pwt = self.ty_of(pwd, &[sf]);
            let empty = self.partial(pwt, &[])?;
            for g in gens.iter().skip(ngen) {
                let deps = self.gen_call(k, g, "dependencies", vec![])?;
                if !self.it.seq_items(&deps)?.is_empty() {
                    continue;
                }
                let r = self.gen_call(k, g, "generate", vec![sref(rows.iter().map(|r| fseq(r)).collect()), ptr_to(empty.clone())])?;
                for (t, p) in self.partial_entries(&r)? {
                    if let (Some(w), Some(_)) = (self.wire_of(&t)?, p.as_atom()) {
                        random.insert(w);
                    }
                }
            }
        }
        let miss: Vec<(usize, usize)> = (before.rows.len()..without).flat_map(|g| (0..k.nw).map(move |i| (g, i))).filter(|w| !random.contains(w)).collect();
        ck(self, "blinding values", "every wire of the blinding rows is random", miss.is_empty(), format!("{:?}", miss));
        // domains and generators
        let (w, w8) = (self.root_of(k, log)?, self.root_of(k, log + 3)?);
        for (f, g, m) in [("subgroup_n", &w, n), ("subgroup_8n", &w8, 8 * n)] {
            let v = self.get_field(&cv, f)?;
            let v = self.polys_of(&v)?;
            ck(self, f, "the evaluation domain is the subgroup of that order, in order", v.len() == m && v.iter().enumerate().all(|(i, x)| *x == g.pow(i as u64)), "different points".into());
        }
        for (f, g) in [("subgroup_generator_n", &w), ("subgroup_generator_8n", &w8)] {
            let v = self.get_field(&cv, f)?.poly()?;
            ck(self, f, "the generator of the evaluation domain", v == *g, v.show());
        }
        let gs: Vec<Poly> = (0..n + 2).map(|i| self.gen_blake(k, i)).collect::<R<_>>()?;
        let pg = self.get_field(&cv, "pedersen_g")?;
        let pg = self.pts_of(&k.pd, &pg)?;
        ck(self, "pedersen_g", "the commitment key consists of the hashed generators", pg[..] == gs[..n], "different generators".into());
        for (f, i) in [("pedersen_h", n), ("u", n + 1)] {
            let v = self.get_field(&cv, f)?;
            let v = k.pd.of(&mut self.it, &v)?;
            ck(self, f, "the further generators are independent of the commitment key", v == gs[i], v.show());
        }
        // interpolation and commitments
        let sf = self.scalar(k.c)?;
        let ifft = |vals: &[Poly]| -> Vec<Poly> {
            let ni = Poly::int(fid, n as u64).inv();
            let wi = w.inv();
            (0..n).map(|i| horner(vals, &wi.pow(i as u64)).mul(&ni)).collect()
        };
        let _ = sf;
        let cols: Vec<Vec<Poly>> = (0..k.nc).map(|j| rows.iter().map(|r| r[j].clone()).collect()).collect();
        // the permutation, read from the values on the domain
        let sv = self.get_field(&cv, "s_sigma_values_8n")?;
        let mut sg: Vec<Vec<Poly>> = vec![];
        for v in self.it.seq_items(&sv)?.iter() {
            sg.push(self.polys_of(v)?);
        }
        let sh = self.shifts(k)?;
        let mut pos: HashMap<Poly, (usize, usize)> = HashMap::new();
        for j in 0..k.nr {
            for g in 0..n {
                pos.insert(sh[j].mul(&w.pow(g as u64)), (g, j));
            }
        }
        let mut next: BTreeMap<(usize, usize), (usize, usize)> = BTreeMap::new();
        let mut odd = None;
        for j in 0..k.nr {
            for g in 0..n {
                match sg.get(j).and_then(|c| c.get(8 * g)).and_then(|p| pos.get(p)) {
                    Some(t) => {
                        next.insert((g, j), *t);
                    }
                    None => {
                        odd.get_or_insert((g, j));
                    }
                }
            }
        }
        ck(self, "sigma range", "sigma maps routed wires to routed wires", odd.is_none() && sg.len() == k.nr, format!("wire {:?}", odd));
        if odd.is_some() || sg.len() != k.nr {
            return Ok(());
        }
        let img: BTreeSet<_> = next.values().collect();
        ck(self, "sigma bijective", "sigma is a permutation of the routed wires", img.len() == next.len(), format!("{} images of {} wires", img.len(), next.len()));
        // classes asked for
        let mut uf: BTreeMap<Node, Node> = BTreeMap::new();
        fn find(uf: &BTreeMap<Node, Node>, mut x: Node) -> Node {
            while let Some(y) = uf.get(&x) {
                if *y == x {
                    break;
                }
                x = y.clone();
            }
            x
        }
        let shape = self.shape()?;
        let mut keys: Vec<(V<'tcx>, V<'tcx>)> = before.copies.clone();
        for (a, b) in keys.drain(..) {
            let (a, b) = (self.node(&a, without, &shape)?, self.node(&b, without, &shape)?);
            let (a, b) = (find(&uf, a), find(&uf, b));
            uf.insert(a, b);
        }
        let mut cycle: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for (i, s) in next.keys().enumerate() {
            let mut x = *s;
            while !cycle.contains_key(&x) {
                cycle.insert(x, i);
                x = next[&x];
            }
        }
        let mut a_of: BTreeMap<Node, usize> = BTreeMap::new();
        let mut b_of: BTreeMap<usize, Node> = BTreeMap::new();
        let (mut split, mut joined) = (None, None);
        for (x, c) in &cycle {
            let cl = find(&uf, Node::Wire(x.0, x.1));
            if *a_of.entry(cl.clone()).or_insert(*c) != *c {
                split.get_or_insert(*x);
            }
            if *b_of.entry(*c).or_insert(cl.clone()) != cl {
                joined.get_or_insert(*x);
            }
        }
        ck(self, "sigma joins", "wires that were copied are in one cycle of sigma", split.is_none(), format!("wire {:?} is in a cycle of its own", split));
        ck(self, "sigma separates", "wires that were not copied are in different cycles of sigma", joined.is_none(), format!("wire {:?} is in the cycle of an unrelated one", joined));
        // what is committed to is what was built
        let scol: Vec<Vec<Poly>> = sg.iter().map(|c| (0..n).map(|g| c[8 * g].clone()).collect()).collect();
        for (nm, vals, pf, lf, cf) in [("constants", &cols, "constant_polynomials", "constants_8n", "c_constants"), ("sigmas", &scol, "s_sigma_polynomials", "s_sigma_values_8n", "c_s_sigmas")] {
            let pv = self.get_field(&cv, pf)?;
            let pv = self.it.seq_items(&pv)?.to_vec();
            let lv = self.get_field(&cv, lf)?;
            let lv = self.it.seq_items(&lv)?.to_vec();
            let cm = self.get_field(&cv, cf)?;
            let cm = self.it.seq_items(&cm)?.to_vec();
            let full = pv.len() == vals.len() && lv.len() == vals.len() && cm.len() == vals.len();
            ck(self, &format!("{} all", nm), "one polynomial, extension and commitment for each", full, format!("{} {} {} of {}", pv.len(), lv.len(), cm.len(), vals.len()));
            if !full {
                continue;
            }
            for (j, v) in vals.iter().enumerate() {
                let co = ifft(v);
                let got = self.coeffs_of(&pv[j])?;
                ck(self, &format!("{} polynomial {}", nm, j), "the polynomial interpolates the rows", got.len() <= n && (0..n).all(|i| got.get(i).cloned().unwrap_or(Poly::zero(fid)) == co[i]), "different coefficients".into());
                let l = self.polys_of(&lv[j])?;
                let ok = l.len() == 8 * n && [0usize, 1, 7, 8, 8 * n - 1, 4 * n + 3].iter().all(|i| *i < l.len() && l[*i] == horner(&co, &w8.pow(*i as u64)));
                ck(self, &format!("{} extension {}", nm, j), "the extension evaluates the polynomial on the larger domain", ok, "different values".into());
                let a = self.call_m("PolynomialCommitment", "to_affine", &[k.c], vec![ptr_to(cm[j].clone())])?;
                let p = k.pd.of(&mut self.it, &a)?;
                let mut want = Poly::zero(fid);
                for i in 0..n {
                    want = want.add(&co[i].mul(&gs[i]));
                }
                ck(self, &format!("{} commitment {}", nm, j), "the commitment is to the polynomial, without blinding", p.sub(&want).is_zero(), "a different point".into());
            }
        }
        Ok(())
    }
    /// the selector prefixes of the gates
    fn gate_prefixes(&mut self, k: &Snark<'tcx>) -> R<Vec<(Vec<bool>, String)>> {
        let mut v = vec![];
        for g in self.gate_types(k.c, k.inner)? {
            v.push((self.gate_prefix(&g)?, g.name.clone()));
        }
        Ok(v)
    }
    fn gen_call(&mut self, k: &Snark<'tcx>, g: &V<'tcx>, m: &str, rest: Vec<V<'tcx>>) -> R<V<'tcx>> {
        let gv = self.it.deref_all(g)?;
        let gt = match &gv {
            V::Adt(a) => a.ty,
            _ => return unsup("generator value"),
        };
        let sf = self.scalar(k.c)?;
        let d = self.trait_item("WitnessGenerator", m)?;
        let mut a = vec![ptr_to(gv)];
        a.extend(rest);
        self.call(d, self.tcx.mk_args(&[gt.into(), sf.into()]), a)
    }
    fn coeffs_of(&mut self, p: &V<'tcx>) -> R<Vec<Poly>> {
        let V::Adt(a) = p else { return unsup("polynomial") };
        let ty::Adt(_, ga) = a.ty.kind() else { return unsup("polynomial") };
        let f = ga.type_at(0);
        let v = self.call_m("Polynomial", "coeffs", &[f], vec![ptr_to(p.clone())])?;
        self.polys_of(&v)
    }
    pub fn node(&mut self, t: &V<'tcx>, off: usize, sh: &crate::circ::Shape) -> R<Node> {
        if let Some((g, i)) = self.wire_of(t)? {
            return Ok(Node::Wire(g, i));
        }
        let v = self.it.deref_all(t)?;
        if let V::Adt(a) = &v {
            if let ty::Adt(d, _) = a.ty.kind() {
                let vd = d.variants().iter().nth(a.variant as usize).unwrap();
                if vd.name.as_str() == "PublicInput" {
                    let i = v.field(0)?.field(0)?.int()? as usize;
                    let (g, w) = (off + 2 * (i / sh.wires), i % sh.wires);
                    return Ok(if w < sh.routed { Node::Wire(g, w) } else { Node::Wire(g + 1, w - sh.routed) });
                }
            }
        }
        let k = self.key(t)?;
        Ok(Node::Virtual(show(k)))
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Node {
    Wire(usize, usize),
    Virtual(String),
}

/// public inputs of each program
pub const NPI: [usize; 11] = [0, 1, 9, 10, 7, 0, 19, 6, 0, 18, 3];
