//! The proof protocol: what the Fiat-Shamir transcript binds, what acceptance by the verifier implies, and that
//! what the prover produces is accepted; points are scalar combinations, the permutation is uninterpreted.
use crate::base::*;
use crate::interp::*;
use crate::pdom::*;
use crate::poly::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub struct Lens {
    pub d: HashMap<String, usize>,
}
impl Lens {
    /// the length of the list at a field path such as "o_local.o_wires" (or the last component alone)
    fn of(&self, path: &str) -> Option<usize> {
        if let Some(n) = self.d.get(path) {
            return Some(*n);
        }
        self.d.get(path.rsplit('.').next().unwrap()).cloned()
    }
}

pub struct Snark<'tcx> {
    pub c: Ty<'tcx>,
    pub inner: Ty<'tcx>,
    pub pd: Pd<'tcx>,
    pub nw: usize,
    pub nr: usize,
    pub nc: usize,
    pub nt: usize,
    pub grid: usize,
    pub bits: usize,
    pub proof_t: Ty<'tcx>,
    pub old_t: Ty<'tcx>,
    pub vk_t: Ty<'tcx>,
    pub name: String,
}

impl<'tcx> Ctx<'tcx> {
    pub fn fidx(&self, t: Ty<'tcx>, n: &str) -> R<usize> {
        let ty::Adt(d, _) = t.kind() else { return unsup(format!("{} is not a struct", t)) };
        match d.non_enum_variant().fields.iter().position(|f| f.name.as_str() == n) {
            Some(i) => Ok(i),
            None => unsup(format!("{} has no field {}", t, n)),
        }
    }
    pub fn get_field(&mut self, v: &V<'tcx>, n: &str) -> R<V<'tcx>> {
        let mut v = self.it.deref_all(v)?;
        if let V::Sym(..) = v {
            v = self.it.materialize(&v)?;
        }
        let V::Adt(a) = &v else { return unsup(format!("field {} of {}", n, v.show_d(1))) };
        let i = self.fidx(a.ty, n)?;
        Ok(a.f[i].clone())
    }
    pub fn set_field(&mut self, v: &V<'tcx>, n: &str, x: V<'tcx>) -> R<V<'tcx>> {
        let V::Adt(a) = v else { return unsup(format!("field {} of {}", n, v.show_d(1))) };
        let i = self.fidx(a.ty, n)?;
        let mut f = a.f.clone();
        f[i] = x;
        Ok(adt(a.ty, a.variant, f))
    }
    /// a point from outside: its validity is unknown
    pub fn ext_point(&mut self, pd: &Pd<'tcx>, n: &str) -> V<'tcx> {
        let at = app("point", vec![name(n)]);
        self.it.atom_fields.insert(at, pd.sf);
        let p = Poly::atom(pd.sf, at);
        pd.aff(&mut self.it, &p)
    }
    /// a symbolic value of a data type: named points and field elements, lists of the given lengths
    pub fn sym_data(&mut self, pd: &Pd<'tcx>, t: Ty<'tcx>, path: &str, lens: &Lens) -> R<V<'tcx>> {
        if t == pd.aff {
            return Ok(self.ext_point(pd, path));
        }
        if let Some(f) = self.it.field_ty(t) {
            let at = name(path);
            self.it.atom_fields.insert(at, f);
            return Ok(V::F(Poly::atom(f, at)));
        }
        match t.kind() {
            ty::Adt(d, a) if self.it.head(t) == "Vec" => {
                let _ = d;
                let Some(n) = lens.of(path) else { return unsup(format!("no length for the list {}", path)) };
                let e = a.type_at(0);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.sym_data(pd, e, &format!("{}[{}]", path, i), lens)?);
                }
                Ok(seq(v))
            }
            ty::Adt(d, a) if self.it.head(t) == "Option" => {
                let _ = (d, a);
                Ok(adt(t, 0, vec![]))
            }
            ty::Adt(d, a) if d.is_struct() => {
                let mut f = vec![];
                for fd in &d.non_enum_variant().fields {
                    let ft = self.it.field_type(fd, a);
                    let p = if path.is_empty() { fd.name.to_string() } else { format!("{}.{}", path, fd.name) };
                    f.push(self.sym_data(pd, ft, &p, lens)?);
                }
                Ok(adt(t, 0, f))
            }
            ty::Uint(_) => match lens.of(path) {
                Some(n) => Ok(V::Int(n as u128)),
                None => unsup(format!("no value for {}", path)),
            },
            _ => unsup(format!("no symbolic value of type {}", t)),
        }
    }
    pub fn snark(&mut self, c: Ty<'tcx>, inner: Ty<'tcx>) -> R<Snark<'tcx>> {
        let pd = self.pd(c)?;
        let g = |s: &Self, n: &str| -> R<Ty<'tcx>> {
            let d = s.find_adt(n)?;
            Ok(s.ty_of(d, &[c]))
        };
        Ok(Snark {
            c,
            inner,
            pd,
            nw: self.const_usize("NUM_WIRES")?,
            nr: self.const_usize("NUM_ROUTED_WIRES")?,
            nc: self.const_usize("NUM_CONSTANTS")?,
            nt: self.const_usize("QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER")?,
            grid: self.const_usize("GRID_WIDTH")?,
            bits: self.const_usize("SECURITY_BITS")?,
            proof_t: g(self, "Proof")?,
            old_t: g(self, "OldProof")?,
            vk_t: g(self, "VerificationKey")?,
            name: self.it.head(c),
        })
    }
    pub fn proof_lens(&self, k: &Snark<'tcx>, log: usize, old: usize) -> Lens {
        let mut d = HashMap::new();
        for (n, v) in [
            ("c_wires", k.nw),
            ("c_plonk_t", k.nt),
            ("o_constants", k.nc),
            ("o_plonk_sigmas", k.nr),
            ("o_wires", k.nw),
            ("o_plonk_t", k.nt),
            ("o_old_proofs", old),
            ("halo_l", log),
            ("halo_r", log),
            ("halo_us", log),
            ("c_constants", k.nc),
            ("c_s_sigmas", k.nr),
            ("degree", 1 << log),
            ("security_bits", k.bits),
        ] {
            d.insert(n.to_string(), v);
        }
        Lens { d }
    }
    /// points as combinations, Halo's n, the permutation, and range checks of field elements
    pub fn hook_protocol(&mut self, pd: Pd<'tcx>) -> R<()> {
        self.hook_points(pd)?;
        self.hook_halo_n(pd);
        self.hook_perm();
        self.it.hooks.insert(
            "Field::is_valid_canonical_u64".into(),
            Rc::new(|it, _, a, _| {
                let s = it.seq_items(&a[0])?;
                let mut src = None;
                for (i, x) in s.iter().enumerate() {
                    match x {
                        V::Sym(t, _) => match term(*t) {
                            Term::App(_, a) if a.len() == 2 && term(a[1]) == Term::Int(i as u128) && (src.is_none() || src == Some(a[0])) => src = Some(a[0]),
                            _ => return Ok(None),
                        },
                        _ => return Ok(None),
                    }
                }
                Ok(if src.is_some() { Some(V::Int(1)) } else { None })
            }),
        );
        Ok(())
    }
    /// run with these hooks only
    pub fn scoped<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let hooks = self.it.hooks.clone();
        let sq = self.it.opaque_sqrt;
        let r = f(self);
        self.it.hooks = hooks;
        self.it.opaque_sqrt = sq;
        r
    }
    /// the field atoms a value is made of (coordinates for points)
    pub fn atoms_in(&mut self, v: &V<'tcx>, out: &mut Vec<TermId>) -> R<()> {
        let v = self.it.deref_all(v)?;
        match &v {
            V::F(p) => out.extend(p.atoms()),
            V::Seq(s) => {
                for x in s.iter() {
                    self.atoms_in(x, out)?;
                }
            }
            V::Adt(a) => {
                let hidden = matches!(a.ty.kind(), ty::Adt(d, _) if d.is_struct() && a.f.len() > d.non_enum_variant().fields.len());
                let n = a.f.len() - hidden as usize;
                for x in &a.f[..n] {
                    self.atoms_in(x, out)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn old_proofs(&mut self, k: &Snark<'tcx>, n: usize, log: usize) -> R<Vec<V<'tcx>>> {
        let l = self.proof_lens(k, log, 0);
        (0..n).map(|i| self.sym_data(&k.pd, k.old_t, &format!("old{}", i), &l)).collect()
    }

    /// what the verifier's challenges depend on
    pub fn check_transcript(&mut self) -> R<()> {
        self.scoped(|s| s.check_transcript_())
    }
    fn check_transcript_(&mut self) -> R<()> {
        let d = self.method("Proof", "get_challenges")?;
        let site = self.site(d);
        let base = self.it.hooks.clone();
        for (c, inner) in self.curve_pairs()? {
            let k = self.snark(c, inner)?;
            self.it.hooks = base.clone();
            self.hook_protocol(k.pd)?;
            for log in [1usize, 2, 5] {
                for npi in [0usize, 1, 3, 12] {
                    for nold in 0..3usize {
                        let key = format!("{} log degree {} public inputs {} old proofs {}", k.name, log, npi, nold);
                        let (k, site2, key2) = (&k, site.clone(), key.clone());
                        self.unit(&key, &site, |s| s.transcript_case(k, d, log, npi, nold, &key2, &site2));
                    }
                }
            }
        }
        Ok(())
    }
    fn transcript_case(&mut self, k: &Snark<'tcx>, d: DefId, log: usize, npi: usize, nold: usize, key: &str, site: &str) -> R<()> {
        let lens = self.proof_lens(k, log, nold);
        let proof = self.sym_data(&k.pd, k.proof_t, "", &lens)?;
        let pis = fvec(k.pd.sf, "pi", npi);
        let olds = self.old_proofs(k, nold, log)?;
        let ga = self.tcx.mk_args(&[k.c.into()]);
        let args = vec![ptr_to(proof.clone()), fref(&pis), sref(olds.clone())];
        let paths = self.paths(64, |s| s.call(d, ga, args.clone()))?;
        for (i, p) in paths.into_iter().enumerate() {
            let c: Vec<String> = p.conds.iter().filter(|c| !c.2).map(|c| format!("{}={}", show_d(c.0, 3), c.1)).collect();
            let key = if i == 0 { key.to_string() } else { format!("{} path {}", key, i) };
            let r = p.r?;
            self.transcript_path(k, log, &proof, &pis, &olds, r, &c.join(" "), &key, site)?;
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn transcript_path(&mut self, k: &Snark<'tcx>, log: usize, proof: &V<'tcx>, pis: &[Poly], olds: &[V<'tcx>], r: V<'tcx>, conds: &str, key: &str, site: &str) -> R<()> {
        let _ = k;
        let (v, f) = self.it.variant(&r)?;
        self.check(&format!("{} succeeds", key), site, "challenges exist for every proof whose halo challenges are squares", v == 0, || format!("{} when {}", r.show_d(3), conds));
        if v != 0 {
            return Ok(());
        }
        let ch = f[0].clone();
        let mut vals: Vec<(String, Poly)> = vec![];
        for n in ["beta", "gamma", "alpha", "zeta", "v", "u", "u_scaling", "schnorr_challenge"] {
            vals.push((n.into(), self.get_field(&ch, n)?.poly()?));
        }
        let us = self.get_field(&ch, "halo_us")?;
        let us: Vec<Poly> = self.it.seq_items(&us)?.iter().map(|x| x.poly()).collect::<R<_>>()?;
        self.check(&format!("{} rounds", key), site, "one challenge per round of the opening argument", us.len() == log, || format!("{} challenges for {} rounds", us.len(), log));
        // what each challenge must depend on
        let mut stages: Vec<(Vec<TermId>, String)> = vec![];
        let grab = |s: &mut Self, ns: &[&str]| -> R<Vec<TermId>> {
            let mut o = vec![];
            for n in ns {
                let v = s.get_field(proof, n)?;
                s.atoms_in(&v, &mut o)?;
            }
            Ok(o)
        };
        let mut need: Vec<TermId> = vec![];
        let mut by: HashMap<String, Vec<TermId>> = HashMap::new();
        need.extend(grab(self, &["c_wires"])?);
        by.insert("beta".into(), need.clone());
        by.insert("gamma".into(), need.clone());
        need.extend(grab(self, &["c_plonk_z"])?);
        // the public inputs are combined with powers of alpha
        need.extend(pis.iter().map(|p| p.as_atom().unwrap()));
        by.insert("alpha".into(), need.clone());
        need.extend(grab(self, &["c_plonk_t", "c_pis_quotient"])?);
        for o in olds {
            let g = self.get_field(o, "halo_g")?;
            self.atoms_in(&g, &mut need)?;
        }
        by.insert("zeta".into(), need.clone());
        need.extend(grab(self, &["o_local", "o_right", "o_below"])?);
        for n in ["v", "u", "u_scaling"] {
            by.insert(n.into(), need.clone());
        }
        let mut all = vals.clone();
        for (i, u) in us.iter().enumerate() {
            for n in ["halo_l", "halo_r"] {
                let l = self.get_field(proof, n)?;
                let l = self.it.seq_items(&l)?;
                self.atoms_in(&l[i], &mut need)?;
            }
            by.insert(format!("halo_us[{}]", i), need.clone());
            all.push((format!("halo_us[{}]", i), u.clone()));
        }
        let sp = self.get_field(proof, "schnorr_proof")?;
        let r = self.get_field(&sp, "r")?;
        self.atoms_in(&r, &mut need)?;
        by.insert("schnorr_challenge".into(), need.clone());
        stages.clear();
        for (n, p) in &all {
            let mut at = BTreeSet::new();
            p.deep_atoms(&mut at);
            let miss: Vec<String> = by[n].iter().filter(|x| !at.contains(x)).map(|x| show(*x)).collect();
            let st: BTreeSet<String> = miss.iter().map(|x| x.clone()).collect();
            self.check(&format!("{} {} binds", key, n), site, &format!("{} depends on every message that must precede it", n), miss.is_empty(), || {
                format!("{} of {} earlier messages do not influence {}: {}", st.len(), by[n].len(), n, st.iter().take(4).cloned().collect::<Vec<_>>().join(", ") + if conds.is_empty() { "" } else { " when " } + conds)
            });
        }
        let mut seen: HashMap<Poly, String> = HashMap::new();
        let mut dup = None;
        for (n, p) in &all {
            if let Some(o) = seen.insert(p.clone(), n.clone()) {
                dup = Some((o, n.clone()));
            }
        }
        self.check(&format!("{} distinct", key), site, "the challenges are different functions of the transcript", dup.is_none(), || {
            let (a, b) = dup.clone().unwrap();
            format!("{} and {} are always equal", a, b)
        });
        Ok(())
    }
}

pub struct Chal {
    pub beta: Poly,
    pub gamma: Poly,
    pub alpha: Poly,
    pub zeta: Poly,
    pub v: Poly,
    pub u: Poly,
    pub us: Poly,
    pub schnorr: Poly,
    pub halo: Vec<Poly>,
}
/// the opening of every polynomial at one point
pub struct Op {
    pub constants: Vec<Poly>,
    pub sigmas: Vec<Poly>,
    pub wires: Vec<Poly>,
    pub z: Poly,
    pub t: Vec<Poly>,
    pub old: Vec<Poly>,
    pub pi: Poly,
}
impl Op {
    fn all(&self) -> Vec<Poly> {
        let mut v = self.constants.clone();
        v.extend(self.sigmas.clone());
        v.extend(self.wires.clone());
        v.push(self.z.clone());
        v.extend(self.t.clone());
        v.extend(self.old.clone());
        v.push(self.pi.clone());
        v
    }
}

pub fn horner(t: &[Poly], x: &Poly) -> Poly {
    t.iter().rev().fold(Poly::zero(x.fid), |a, y| a.mul(x).add(y))
}
/// prod (u_i x^(2^(k-i)) + 1/u_i): the polynomial of the folded generators
pub fn spec_halo_g(x: &Poly, us: &[Poly]) -> Poly {
    let mut r = Poly::one(x.fid);
    let mut xp = x.clone();
    for u in us.iter().rev() {
        r = r.mul(&u.mul(&xp).add(&u.inv()));
        xp = xp.mul(&xp);
    }
    r
}

impl<'tcx> Ctx<'tcx> {
    pub fn polys_of(&mut self, v: &V<'tcx>) -> R<Vec<Poly>> {
        self.it.seq_items(v)?.iter().map(|x| x.poly()).collect()
    }
    pub fn pts_of(&mut self, pd: &Pd<'tcx>, v: &V<'tcx>) -> R<Vec<Poly>> {
        let s = self.it.seq_items(v)?;
        s.iter().map(|x| pd.of(&mut self.it, x)).collect()
    }
    fn challenges(&mut self, k: &Snark<'tcx>, proof: &V<'tcx>, pis: &[Poly], olds: &[V<'tcx>]) -> R<Chal> {
        let d = self.method("Proof", "get_challenges")?;
        let ga = self.tcx.mk_args(&[k.c.into()]);
        let r = self.call(d, ga, vec![ptr_to(proof.clone()), fref(pis), sref(olds.to_vec())])?;
        let (v, f) = self.it.variant(&r)?;
        if v != 0 {
            return unsup("no challenges");
        }
        let ch = f[0].clone();
        let mut g = |s: &mut Self, n: &str| -> R<Poly> { s.get_field(&ch, n)?.poly() };
        let (beta, gamma, alpha, zeta) = (g(self, "beta")?, g(self, "gamma")?, g(self, "alpha")?, g(self, "zeta")?);
        let (v, u, us, schnorr) = (g(self, "v")?, g(self, "u")?, g(self, "u_scaling")?, g(self, "schnorr_challenge")?);
        let h = self.get_field(&ch, "halo_us")?;
        let halo = self.polys_of(&h)?;
        Ok(Chal { beta, gamma, alpha, zeta, v, u, us, schnorr, halo })
    }
    fn opening(&mut self, proof: &V<'tcx>, n: &str) -> R<Op> {
        let o = self.get_field(proof, n)?;
        let mut l = |s: &mut Self, n: &str| -> R<Vec<Poly>> {
            let v = s.get_field(&o, n)?;
            s.polys_of(&v)
        };
        let (constants, sigmas, wires, t, old) = (l(self, "o_constants")?, l(self, "o_plonk_sigmas")?, l(self, "o_wires")?, l(self, "o_plonk_t")?, l(self, "o_old_proofs")?);
        Ok(Op { constants, sigmas, wires, t, old, z: self.get_field(&o, "o_plonk_z")?.poly()?, pi: self.get_field(&o, "o_pi_quotient")?.poly()? })
    }
    /// gate constraints are uninterpreted functions of what they are evaluated on
    pub fn hook_constraints(&mut self, n: usize) {
        self.it.hooks.insert(
            "gates::evaluate_all_constraints".into(),
            Rc::new(move |it, _, a, _| {
                let mut rows = vec![];
                for x in a.iter().take(4) {
                    let v: Vec<Poly> = it.seq_items(x)?.iter().map(|x| x.poly()).collect::<R<_>>()?;
                    rows.push(v);
                }
                Ok(Some(fseq(&constraint_atoms(it, &rows, n))))
            }),
        );
    }
    /// n(low bits of x)
    pub fn n_of(&mut self, k: &Snark<'tcx>, x: &Poly) -> R<Poly> {
        let b = self.it.bits_of(x, 1, "bit");
        let b = seq(b[..k.bits].to_vec());
        k.pd.halo_n(&mut self.it, &b)
    }
    pub fn gen_blake(&mut self, k: &Snark<'tcx>, i: usize) -> R<Poly> {
        let d = self.find_fn("hash_to_curve::blake_hash_usize_to_curve")?;
        let v = self.call(d, self.tcx.mk_args(&[k.c.into()]), vec![V::Int(i as u128)])?;
        k.pd.of(&mut self.it, &v)
    }
    pub fn root_of(&mut self, k: &Snark<'tcx>, log: usize) -> R<Poly> {
        let sf = self.scalar(k.c)?;
        let p = field_p(k.pd.sf);
        let g = self.fconst(sf, "MULTIPLICATIVE_SUBGROUP_GENERATOR")?;
        let e = (&p - 1u32) >> log;
        Ok(Poly::constant(k.pd.sf, g.modpow(&e, &p)))
    }
    /// the equations an accepting verifier must have checked: (name, residue that must vanish, an atom in which it is linear)
    fn spec_equations(&mut self, k: &Snark<'tcx>, proof: &V<'tcx>, vk: &V<'tcx>, olds: &[V<'tcx>], pis: &[Poly], gates_without: usize, log: usize, ch: &Chal, ncons: usize) -> R<Vec<(String, Poly, TermId)>> {
        let fid = k.pd.sf;
        let one = Poly::one(fid);
        let n = 1usize << log;
        let (l, r, b) = (self.opening(proof, "o_local")?, self.opening(proof, "o_right")?, self.opening(proof, "o_below")?);
        let mut out = vec![];
        let zd = ch.zeta.pow(n as u64);
        let zh = zd.sub(&one);
        // quotient identity
        let cons = constraint_atoms(&mut self.it, &[l.constants.clone(), l.wires.clone(), r.wires.clone(), b.wires.clone()], ncons);
        let l1 = zh.mul(&Poly::int(fid, n as u64).mul(&ch.zeta.sub(&one)).inv());
        let mut terms = vec![l1.mul(&l.z.sub(&one))];
        let (mut f, mut g) = (one.clone(), one.clone());
        let sh = self.shifts(k)?;
        for i in 0..k.nr {
            f = f.mul(&l.wires[i].add(&ch.beta.mul(&sh[i]).mul(&ch.zeta)).add(&ch.gamma));
            g = g.mul(&l.wires[i].add(&ch.beta.mul(&l.sigmas[i])).add(&ch.gamma));
        }
        terms.push(f.mul(&l.z).sub(&g.mul(&r.z)));
        terms.extend(cons);
        out.push(("quotient identity".to_string(), horner(&terms, &ch.alpha).sub(&horner(&l.t, &zd).mul(&zh)), l.t[0].as_atom().unwrap()));
        // public inputs
        let w = self.root_of(k, log)?;
        let np = (pis.len() + k.nw - 1) / k.nw;
        let mut den = one.clone();
        for i in 0..np {
            den = den.mul(&ch.zeta.sub(&w.pow((gates_without + 2 * i) as u64)));
        }
        // the polynomial with the combined public inputs at their gates and zero at the other gates up to them
        let mut vals = vec![Poly::zero(fid); n];
        for (i, p) in pis.iter().enumerate() {
            let row = gates_without + 2 * (i / k.nw);
            vals[row] = vals[row].add(&ch.alpha.pow((i % k.nw) as u64).mul(p));
        }
        let pi_at = lagrange_at(&w, &vals, &ch.zeta);
        let comb = horner(&l.wires[..k.nw], &ch.alpha);
        out.push(("public input identity".to_string(), comb.sub(&pi_at).sub(&den.mul(&l.pi)), l.pi.as_atom().unwrap()));
        // old proofs
        for (i, o) in olds.iter().enumerate() {
            let us = self.get_field(o, "halo_us")?;
            let us = self.polys_of(&us)?;
            let v = spec_halo_g(&ch.zeta, &us);
            out.push((format!("opening of old proof {}", i), v.sub(&l.old[i]), l.old[i].as_atom().unwrap()));
        }
        // the opening argument
        let mut comms = vec![];
        for (v, n) in [(vk, "c_constants"), (vk, "c_s_sigmas"), (proof, "c_wires")] {
            let x = self.get_field(v, n)?;
            comms.extend(self.pts_of(&k.pd, &x)?);
        }
        let x = self.get_field(proof, "c_plonk_z")?;
        comms.push(k.pd.of(&mut self.it, &x)?);
        let x = self.get_field(proof, "c_plonk_t")?;
        comms.extend(self.pts_of(&k.pd, &x)?);
        for o in olds {
            let x = self.get_field(o, "halo_g")?;
            comms.push(k.pd.of(&mut self.it, &x)?);
        }
        let x = self.get_field(proof, "c_pis_quotient")?;
        comms.push(k.pd.of(&mut self.it, &x)?);
        let mut sc = vec![];
        for i in 0..comms.len() {
            let up = ch.u.pow(i as u64);
            sc.push(self.n_of(k, &up)?);
        }
        let dot = |a: &[Poly], b: &[Poly]| a.iter().zip(b).fold(Poly::zero(fid), |s, (x, y)| s.add(&x.mul(y)));
        let c_red = dot(&comms, &sc);
        let vals: Vec<Poly> = [&l, &r, &b].iter().map(|o| dot(&o.all(), &sc)).collect();
        let val = horner(&vals, &ch.v);
        let pts = [ch.zeta.clone(), ch.zeta.mul(&w), ch.zeta.mul(&w.pow(k.grid as u64))];
        let bs: Vec<Poly> = pts.iter().map(|p| spec_halo_g(p, &ch.halo)).collect();
        let hb = horner(&bs, &ch.v);
        let nu = self.n_of(k, &ch.us)?;
        let up = self.gen_blake(k, n + 1)?.mul(&nu);
        let h = self.gen_blake(k, n)?;
        let mut q = c_red.add(&up.mul(&val));
        let (hl, hr) = (self.get_field(proof, "halo_l")?, self.get_field(proof, "halo_r")?);
        let (hl, hr) = (self.pts_of(&k.pd, &hl)?, self.pts_of(&k.pd, &hr)?);
        for i in 0..ch.halo.len() {
            let u2 = ch.halo[i].mul(&ch.halo[i]);
            q = q.add(&hl[i].mul(&u2)).add(&hr[i].mul(&u2.inv()));
        }
        let sp = self.get_field(proof, "schnorr_proof")?;
        let x = self.get_field(&sp, "r")?;
        let sr = k.pd.of(&mut self.it, &x)?;
        let (z1, z2) = (self.get_field(&sp, "z1")?.poly()?, self.get_field(&sp, "z2")?.poly()?);
        let x = self.get_field(proof, "halo_g")?;
        let hg = k.pd.of(&mut self.it, &x)?;
        let lhs = ch.schnorr.mul(&q).add(&sr);
        let rhs = z1.mul(&hg.add(&up.mul(&hb))).add(&z2.mul(&h));
        out.push(("opening argument".into(), lhs.sub(&rhs), sr.as_atom().unwrap()));
        // the folded generator
        let mut s = Poly::zero(fid);
        for i in 0..n {
            let mut c = one.clone();
            for j in 0..log {
                let u = &ch.halo[log - 1 - j];
                c = c.mul(&if i >> j & 1 == 1 { u.clone() } else { u.inv() });
            }
            s = s.add(&c.mul(&self.gen_blake(k, i)?));
        }
        out.push(("folded generator".into(), hg.sub(&s), hg.as_atom().unwrap()));
        Ok(out)
    }
    pub fn shifts(&mut self, k: &Snark<'tcx>) -> R<Vec<Poly>> {
        let d = self.find_fn("partition::get_subgroup_shift")?;
        let sf = self.scalar(k.c)?;
        (0..k.nr).map(|i| self.call(d, self.tcx.mk_args(&[sf.into()]), vec![V::Int(i as u128)])?.poly()).collect()
    }
    pub fn verify_fn(&mut self, k: &Snark<'tcx>) -> R<(DefId, ty::GenericArgsRef<'tcx>)> {
        let d = self.find_fn("verifier::verify_proof")?;
        Ok((d, self.tcx.mk_args(&[k.c.into(), k.inner.into()])))
    }

    /// what acceptance by the verifier implies
    pub fn check_verifier(&mut self) -> R<()> {
        self.scoped(|s| s.check_verifier_())
    }
    fn check_verifier_(&mut self) -> R<()> {
        let site = {
            let d = self.find_fn("verifier::verify_proof")?;
            self.site(d)
        };
        let base = self.it.hooks.clone();
        let mut cases: Vec<(usize, usize, usize, usize, bool)> = vec![];
        for log in [2usize, 3] {
            for (np, nold) in [(0usize, 0usize), (1, 1), (2, 0), (9, 2), (10, 1)] {
                for g in [false, true] {
                    let gates = 1;
                    let need = gates + 2 * ((np + 8) / 9);
                    if need <= 1 << log {
                        cases.push((log, np, nold, gates, g));
                    }
                }
            }
        }
        cases.push((3, 11, 0, 3, true));
        for (ci, (c, inner)) in self.curve_pairs()?.into_iter().enumerate() {
            let k = self.snark(c, inner)?;
            self.it.hooks = base.clone();
            self.hook_protocol(k.pd)?;
            self.hook_constraints(3);
            for (log, np, nold, gates, g) in &cases {
                if ci > 0 && *log > 2 {
                    continue;
                }
                let key = format!("{} log degree {} public inputs {} old proofs {} full {}", k.name, log, np, nold, g);
                let (k, s2, k2) = (&k, site.clone(), key.clone());
                self.unit(&key, &site, |s| s.verifier_case(k, *log, *np, *nold, *gates, *g, &k2, &s2));
            }
            let (k, s2) = (&k, site.clone());
            let key = format!("{} malformed", k.name);
            self.unit(&key, &site, |s| s.malformed_cases(k, &s2));
        }
        Ok(())
    }
    pub fn vk_value(&mut self, k: &Snark<'tcx>, log: usize, np: usize, gates: usize) -> R<V<'tcx>> {
        let mut l = self.proof_lens(k, log, 0);
        l.d.insert("num_public_inputs".into(), np);
        l.d.insert("num_gates_without_pis".into(), gates);
        self.sym_data(&k.pd, k.vk_t, "vk", &l)
    }
    fn verifier_case(&mut self, k: &Snark<'tcx>, log: usize, np: usize, nold: usize, gates: usize, full: bool, key: &str, site: &str) -> R<()> {
        let lens = self.proof_lens(k, log, nold);
        let proof = self.sym_data(&k.pd, k.proof_t, "", &lens)?;
        let vk = self.vk_value(k, log, np, gates)?;
        let pis = fvec(k.pd.sf, "pi", np);
        let olds = self.old_proofs(k, nold, log)?;
        let ch = self.challenges(k, &proof, &pis, &olds)?;
        let spec = self.spec_equations(k, &proof, &vk, &olds, &pis, gates, log, &ch, 3)?;
        let (d, ga) = self.verify_fn(k)?;
        let args = vec![fref(&pis), ptr_to(proof.clone()), sref(olds.clone()), ptr_to(vk.clone()), V::Int(full as u128)];
        let paths = self.paths(200, |s| {
            let r = s.call(d, ga, args.clone())?;
            let (v, f) = s.it.variant(&r)?;
            if v != 0 {
                return Ok(None);
            }
            let o = s.it.deref_all(&f[0])?;
            let (v, f) = s.it.variant(&o)?;
            Ok(Some(if v == 0 { None } else { Some(f[0].clone()) }))
        })?;
        let mut acc = 0;
        for p in &paths {
            match &p.r {
                Ok(None) | Err(Stop::Panic(_)) => {}
                Err(Stop::Unsupported(m)) => return unsup(m.clone()),
                Ok(Some(old)) => {
                    acc += 1;
                    let mut valid: BTreeSet<TermId> = BTreeSet::new();
                    let mut eqs: Vec<Poly> = vec![];
                    for (t, yes) in holding(&p.conds) {
                        if let Term::App(op, a) = term(t) {
                            match op.as_str() {
                                "valid" if yes => {
                                    valid.insert(a[0]);
                                }
                                "is0" if yes => {
                                    if let Term::P(q) = term(a[0]) {
                                        eqs.push(q);
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    let mut pts = vec![];
                    for n in ["c_wires", "c_plonk_t", "halo_l", "halo_r"] {
                        let l = self.get_field(&proof, n)?;
                        for (i, x) in self.pts_of(&k.pd, &l)?.into_iter().enumerate() {
                            pts.push((format!("{}[{}]", n, i), x));
                        }
                    }
                    for n in ["c_plonk_z", "c_pis_quotient", "halo_g"] {
                        let x = self.get_field(&proof, n)?;
                        pts.push((n.to_string(), k.pd.of(&mut self.it, &x)?));
                    }
                    let sp = self.get_field(&proof, "schnorr_proof")?;
                    let x = self.get_field(&sp, "r")?;
                    pts.push(("schnorr_proof.r".into(), k.pd.of(&mut self.it, &x)?));
                    for (n, q) in pts {
                        let kk = self.it.vkey(&V::F(q));
                        self.check(&format!("{} valid {}", key, n), site, "an accepted proof's points are on the curve", valid.contains(&kk), || format!("{} is accepted without a validity check", n));
                    }
                    for (n, res, at) in &spec {
                        if n == "folded generator" && !full {
                            continue;
                        }
                        let ok = implied(&eqs, res, *at);
                        self.check(&format!("{} {}", key, n), site, &format!("acceptance implies the {}", n), ok, || format!("no accepting condition is equivalent to {}", res.show_d(2)));
                    }
                    // what remains to be verified later
                    match (full, old) {
                        (true, None) => {}
                        (false, Some(o)) => {
                            let g = self.get_field(o, "halo_g")?;
                            let us = self.get_field(o, "halo_us")?;
                            let x = self.get_field(&proof, "halo_g")?;
                            let same = k.pd.of(&mut self.it, &g)? == k.pd.of(&mut self.it, &x)? && self.polys_of(&us)? == ch.halo;
                            self.check(&format!("{} deferred", key), site, "a deferred verification hands on the folded generator and its challenges", same, || o.show_d(3));
                        }
                        _ => self.check(&format!("{} deferred", key), site, "a deferred verification hands on the folded generator and its challenges", false, || format!("full {} returned {}", full, old.is_some())),
                    }
                }
            }
        }
        self.check(&format!("{} accepts", key), site, "some proof is accepted", acc > 0, || "every path rejects".into());
        Ok(())
    }
    /// lists of the wrong length are never accepted
    fn malformed_cases(&mut self, k: &Snark<'tcx>, site: &str) -> R<()> {
        let (log, np, nold, gates) = (2usize, 2usize, 1usize, 1usize);
        let (d, ga) = self.verify_fn(k)?;
        let vk = self.vk_value(k, log, np, gates)?;
        let pis = fvec(k.pd.sf, "pi", np);
        let olds = self.old_proofs(k, nold, log)?;
        let mut edits: Vec<(String, Vec<(String, i64)>)> = vec![];
        for n in ["c_wires", "c_plonk_t", "halo_l", "halo_r"] {
            for e in [-1i64, 1] {
                edits.push((format!("{} {:+}", n, e), vec![(n.into(), e)]));
            }
        }
        for e in [-1i64, 1] {
            edits.push((format!("opening rounds {:+}", e), vec![("halo_l".into(), e), ("halo_r".into(), e)]));
        }
        for s in ["o_local", "o_right", "o_below"] {
            for n in ["o_constants", "o_plonk_sigmas", "o_wires", "o_plonk_t", "o_old_proofs"] {
                for e in [-1i64, 1] {
                    edits.push((format!("{}.{} {:+}", s, n, e), vec![(format!("{}.{}", s, n), e)]));
                }
            }
        }
        // elements moved across the boundary of two lists that are opened one after the other
        for s in ["o_local", "o_right", "o_below"] {
            let seqs = ["o_constants", "o_plonk_sigmas", "o_wires"];
            for w in seqs.windows(2) {
                for e in [-1i64, 1] {
                    edits.push((format!("{}.{} {:+} {} {:+}", s, w[0], e, w[1], -e), vec![(format!("{}.{}", s, w[0]), e), (format!("{}.{}", s, w[1]), -e)]));
                }
            }
        }
        for e in [-1i64, 1] {
            edits.push((format!("c_wires {:+} c_plonk_t {:+}", e, -e), vec![("c_wires".into(), e), ("c_plonk_t".into(), -e)]));
        }
        let base = self.proof_lens(k, log, nold);
        for (n, ed) in edits {
            let mut l = Lens { d: base.d.clone() };
            for (p, e) in &ed {
                let cur = l.of(p).unwrap() as i64;
                l.d.insert(p.clone(), (cur + e) as usize);
            }
            let proof = self.sym_data(&k.pd, k.proof_t, "", &l)?;
            for full in [false, true] {
                let key = format!("{} malformed {} full {}", k.name, n, full);
                self.reject_case(d, ga, vec![fref(&pis), ptr_to(proof.clone()), sref(olds.clone()), ptr_to(vk.clone()), V::Int(full as u128)], &key, site)?;
            }
        }
        let proof = self.sym_data(&k.pd, k.proof_t, "", &base)?;
        for n in [0usize, 1, 3, 9, 10] {
            let p = fvec(k.pd.sf, "pi", n);
            let key = format!("{} malformed {} public inputs for {}", k.name, n, np);
            self.reject_case(d, ga, vec![fref(&p), ptr_to(proof.clone()), sref(olds.clone()), ptr_to(vk.clone()), V::Int(1)], &key, site)?;
        }
        for n in [0usize, 2] {
            let o = self.old_proofs(k, n, log)?;
            let key = format!("{} malformed {} old proofs for {} openings", k.name, n, nold);
            self.reject_case(d, ga, vec![fref(&pis), ptr_to(proof.clone()), sref(o), ptr_to(vk.clone()), V::Int(1)], &key, site)?;
        }
        Ok(())
    }
    pub fn reject_case(&mut self, d: DefId, ga: ty::GenericArgsRef<'tcx>, args: Vec<V<'tcx>>, key: &str, site: &str) -> R<()> {
        let paths = self.paths(200, |s| {
            let r = s.call(d, ga, args.clone())?;
            Ok(s.it.variant(&r)?.0 == 0)
        });
        let (key2, site2) = (key.to_string(), site.to_string());
        let mut paths = Some(paths);
        self.unit(key, site, |s| {
            let mut bad = None;
            let Some(paths) = paths.take() else { return Ok(()) };
            for p in paths? {
                match p.r {
                    Ok(true) => bad = Some(p.conds.len()),
                    Ok(false) | Err(Stop::Panic(_)) => {}
                    Err(e) => return Err(e),
                }
            }
            s.check(&key2, &site2, "a proof or statement of the wrong shape is never accepted", bad.is_none(), || format!("accepted under {} conditions", bad.unwrap()));
            Ok(())
        });
        Ok(())
    }
}

/// the value at x of the polynomial of degree below n with the given values on the subgroup generated by w
pub fn lagrange_at(w: &Poly, vals: &[Poly], x: &Poly) -> Poly {
    let n = vals.len();
    let ninv = Poly::int(x.fid, n as u64).inv();
    let mut s = Poly::zero(x.fid);
    for (i, v) in vals.iter().enumerate() {
        // sum_j (x / w^i)^j / n
        let y = x.mul(&w.pow(i as u64).inv());
        let mut l = Poly::zero(x.fid);
        for j in 0..n {
            l = l.add(&y.pow(j as u64));
        }
        s = s.add(&v.mul(&l).mul(&ninv));
    }
    s
}

pub fn constraint_atoms<'tcx>(it: &mut Interp<'tcx>, rows: &[Vec<Poly>], n: usize) -> Vec<Poly> {
    let fid = rows[0][0].fid;
    let k: Vec<TermId> = rows
        .iter()
        .map(|r| {
            let v = V::Seq(Rc::new(r.iter().map(|p| V::F(p.clone())).collect()));
            it.vkey(&v)
        })
        .collect();
    (0..n)
        .map(|i| {
            let mut a = vec![intern(Term::Int(i as u128))];
            a.extend(k.clone());
            let t = app("constraint", a);
            it.atom_fields.insert(t, fid);
            Poly::atom(fid, t)
        })
        .collect()
}

/// does one of the equations hold exactly when the residue vanishes (both linear in the atom)
pub fn implied(eqs: &[Poly], res: &Poly, at: TermId) -> bool {
    let want = res.normalised();
    let Some((a, b, 1)) = crate::circ::split_linear(&want, at) else { return false };
    if a.is_zero() {
        return false;
    }
    for e in eqs {
        if e.fid != res.fid {
            continue;
        }
        let Some((c, d, 1)) = crate::circ::split_linear(e, at) else { continue };
        if c.is_zero() {
            continue;
        }
        if a.mul(&d).sub(&b.mul(&c)).is_zero() {
            return true;
        }
    }
    false
}

/// the elementary conditions decided by a path, with their truth
pub fn holding(conds: &[(TermId, usize, bool)]) -> Vec<(TermId, bool)> {
    fn go(t: TermId, yes: bool, out: &mut Vec<(TermId, bool)>) {
        let (t, neg) = strip_not(t);
        let yes = yes != neg;
        if let Term::App(op, a) = term(t) {
            if (op == "&" && yes) || (op == "|" && !yes) {
                for x in a {
                    go(x, yes, out);
                }
                return;
            }
        }
        out.push((t, yes));
    }
    let mut out = vec![];
    for (t, d, _) in conds {
        go(*t, *d == 1, &mut out);
    }
    out
}

impl<'tcx> Ctx<'tcx> {
    pub fn call_m(&mut self, ty: &str, m: &str, ga: &[Ty<'tcx>], args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        let d = self.method(ty, m)?;
        let g: Vec<ty::GenericArg<'tcx>> = ga.iter().map(|t| (*t).into()).collect();
        self.call(d, self.tcx.mk_args(&g), args)
    }
    pub fn call_f(&mut self, f: &str, ga: &[Ty<'tcx>], args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        let d = self.find_fn(f)?;
        let g: Vec<ty::GenericArg<'tcx>> = ga.iter().map(|t| (*t).into()).collect();
        self.call(d, self.tcx.mk_args(&g), args)
    }
    pub fn atoms_named(&mut self, fid: FieldId, n: &str, k: usize) -> Vec<Poly> {
        let v = fvec(fid, n, k);
        for p in &v {
            if let Some(a) = p.as_atom() {
                self.it.atom_fields.insert(a, fid);
            }
        }
        v
    }
    /// coefficients as a Polynomial
    pub fn polynomial(&mut self, sf: Ty<'tcx>, c: &[Poly]) -> R<V<'tcx>> {
        self.call_m("Polynomial", "from_coeffs", &[sf], vec![fref(c)])
    }
    /// a circuit of 2^log gates with symbolic constants and permutation; only the parts the prover reads
    pub fn circuit_value(&mut self, k: &Snark<'tcx>, log: usize, np: usize, gates: usize) -> R<V<'tcx>> {
        let sf = self.scalar(k.c)?;
        let n = 1usize << log;
        let fid = k.pd.sf;
        let w = self.root_of(k, log)?;
        let w8 = self.root_of(k, log + 3)?;
        let ct = self.find_adt("Circuit")?;
        let ct = self.ty_of(ct, &[k.c]);
        let ty::Adt(d, a) = ct.kind() else { return unsup("Circuit") };
        let gens: Vec<Poly> = (0..n).map(|i| self.gen_blake(k, i)).collect::<R<_>>()?;
        let (h, u) = (self.gen_blake(k, n)?, self.gen_blake(k, n + 1)?);
        let pg: Vec<V<'tcx>> = gens.iter().map(|p| k.pd.aff(&mut self.it, p)).collect();
        let pj: Vec<V<'tcx>> = gens.iter().map(|p| k.pd.proj(&mut self.it, p)).collect();
        let (hv, uv) = (k.pd.aff(&mut self.it, &h), k.pd.aff(&mut self.it, &u));
        let pre = self.call_f("curve_msm::msm_precompute", &[k.c], vec![sref(pj), V::Int(8)])?;
        let mut polys = |s: &mut Self, nm: &str, m: usize| -> R<Vec<V<'tcx>>> {
            (0..m)
                .map(|i| {
                    let c = if nm == "sigma" { (0..n).map(|j| fixed(fid, 100_000 + 1000 * i + j)).collect() } else { s.atoms_named(fid, &format!("{}{}_", nm, i), n) };
                    s.polynomial(sf, &c)
                })
                .collect()
        };
        let cp = polys(self, "const", k.nc)?;
        let sp = polys(self, "sigma", k.nr)?;
        let commit = |s: &mut Self, ps: &Vec<V<'tcx>>| -> R<V<'tcx>> { s.call_f("plonk_util::commit_polynomials", &[k.c], vec![sref(ps.clone()), ptr_to(pre.clone()), hv.clone(), V::Int(0)]) };
        let (cc, cs) = (commit(self, &cp)?, commit(self, &sp)?);
        let fp = self.call_f("fft::fft_precompute", &[sf], vec![V::Int(n as u128)])?;
        let fp8 = self.call_f("fft::fft_precompute", &[sf], vec![V::Int(8 * n as u128)])?;
        let pw = |w: &Poly, m: usize| fseq(&(0..m).map(|i| w.pow(i as u64)).collect::<Vec<_>>());
        let mut f = vec![];
        for fd in &d.non_enum_variant().fields {
            let nm = fd.name.to_string();
            let ft = self.it.field_type(fd, a);
            let lde = |s: &mut Self, nm: &str, m: usize| -> V<'tcx> { seq((0..m).map(|j| fseq(&s.atoms_named(fid, &format!("{}8n{}_", nm, j), 8 * n))).collect()) };
            f.push(match nm.as_str() {
                "security_bits" => V::Int(k.bits as u128),
                "num_public_inputs" => V::Int(np as u128),
                "num_gates_without_pis" => V::Int(gates as u128),
                "gate_constants" => seq((0..n).map(|_| fseq(&[])).collect()),
                "subgroup_generator_n" => V::F(w.clone()),
                "subgroup_generator_8n" => V::F(w8.clone()),
                "subgroup_n" => pw(&w, n),
                "subgroup_8n" => pw(&w8, 8 * n),
                "pedersen_g" => seq(pg.clone()),
                "pedersen_h" => hv.clone(),
                "u" => uv.clone(),
                "constant_polynomials" => seq(cp.clone()),
                "s_sigma_polynomials" => seq(sp.clone()),
                "c_constants" => cc.clone(),
                "c_s_sigmas" => cs.clone(),
                "constants_8n" => lde(self, "const", k.nc),
                "s_sigma_values_8n" => lde(self, "sigma", k.nr),
                "pedersen_g_msm_precomputation" => pre.clone(),
                "fft_precomputation_n" => fp.clone(),
                "fft_precomputation_8n" => fp8.clone(),
                _ => self.it.named(&format!("circuit.{}", nm), ft),
            });
        }
        Ok(adt(ct, 0, f))
    }
    pub fn witness_value(&mut self, k: &Snark<'tcx>, rows: &[Vec<Poly>]) -> R<V<'tcx>> {
        let sf = self.scalar(k.c)?;
        let rs = rows.iter().map(|r| fseq(r)).collect();
        self.call_m("Witness", "new", &[sf], vec![seq(rs)])
    }

    /// what hides the witness in a proof
    pub fn check_blinding(&mut self) -> R<()> {
        self.scoped(|s| s.check_blinding_())
    }
    fn check_blinding_(&mut self) -> R<()> {
        let site = {
            let d = self.method("Circuit", "generate_proof")?;
            self.site(d)
        };
        let base = self.it.hooks.clone();
        for (c, inner) in self.curve_pairs()? {
            let k = self.snark(c, inner)?;
            for (log, np, gates, nold, retry) in [(2usize, 2usize, 1usize, 0usize, 0usize), (2, 2, 1, 0, 1), (2, 0, 3, 2, 0), (3, 11, 2, 1, 0), (3, 0, 7, 0, 2), (4, 20, 5, 0, 0)] {
                for blind in [true, false] {
                    self.it.hooks = base.clone();
                    self.hook_protocol(k.pd)?;
                    let key = format!("{} log degree {} public inputs {} at {} old proofs {} blinding {} retries {}", k.name, log, np, gates, nold, blind, retry);
                    let (k, s2, k2) = (&k, site.clone(), key.clone());
                    self.unit(&key, &site, |s| s.blinding_case(k, log, np, gates, nold, blind, retry, &k2, &s2));
                }
            }
        }
        Ok(())
    }
    fn blinding_case(&mut self, k: &Snark<'tcx>, log: usize, np: usize, gates: usize, nold: usize, blind: bool, retry: usize, key: &str, site: &str) -> R<()> {
        let n = 1usize << log;
        let fid = k.pd.sf;
        let rnd = |a: &TermId| show_d(*a, 2).starts_with("rand");
        let pr = self.prove_case(k, log, np, gates, nold, blind, retry, log % 2 == 0)?;
        let (v, f) = self.it.variant(&pr.result)?;
        self.check(&format!("{} proves", key), site, "a proof is produced", v == 0, || pr.result.show_d(3));
        if v != 0 {
            return Ok(());
        }
        let proof = f[0].clone();
        let h = self.gen_blake(k, n)?;
        let Some(ha) = h.as_atom() else { return unsup("the blinding point is not a generator") };
        // the coefficient of the blinding point, in the order in which the proof's messages are sent
        let mut msgs: Vec<(String, Poly)> = vec![];
        let mut scalars: Vec<(String, Poly)> = vec![];
        let coef = |p: &Poly| -> R<Poly> {
            let mut r = Poly::zero(fid);
            for (m, c) in p.t.iter() {
                match m.iter().find(|x| x.0 == ha) {
                    Some((_, 1)) => {
                        let mut t = Poly::constant(fid, c.clone());
                        for (a, e) in m.iter().filter(|x| x.0 != ha) {
                            let b = Poly::atom(fid, *a);
                            t = t.mul(&if *e < 0 { b.inv() } else { b }.pow(e.unsigned_abs() as u64));
                        }
                        r = r.add(&t);
                    }
                    Some(_) => return unsup("a point is not linear in the blinding point"),
                    None => {}
                }
            }
            Ok(r)
        };
        let list = |s: &mut Self, v: V<'tcx>| -> R<Vec<Poly>> {
            match s.it.seq_items(&v) {
                Ok(l) => l.iter().map(|x| coef(&k.pd.of(&mut s.it, x)?)).collect(),
                Err(_) => Ok(vec![coef(&k.pd.of(&mut s.it, &v)?)?]),
            }
        };
        let mut commitments = 0;
        for nm in ["c_wires", "c_plonk_z", "c_plonk_t", "c_pis_quotient"] {
            let v = self.get_field(&proof, nm)?;
            for (i, p) in list(self, v)?.into_iter().enumerate() {
                msgs.push((format!("{}[{}]", nm, i), p));
                commitments += 1;
            }
        }
        for nm in ["o_local", "o_right", "o_below"] {
            let v = self.get_field(&proof, nm)?;
            let v = self.call_m("OpeningSet", "to_vec", &[self.scalar(k.c)?], vec![ptr_to(v)])?;
            for (i, p) in self.polys_of(&v)?.into_iter().enumerate() {
                scalars.push((format!("{}[{}]", nm, i), p));
            }
        }
        let (l, r) = (self.get_field(&proof, "halo_l")?, self.get_field(&proof, "halo_r")?);
        let (l, r) = (list(self, l)?, list(self, r)?);
        for (i, (a, b)) in l.into_iter().zip(r).enumerate() {
            msgs.push((format!("halo_l[{}]", i), a));
            msgs.push((format!("halo_r[{}]", i), b));
        }
        let sp = self.get_field(&proof, "schnorr_proof")?;
        let rc = {
            let v = self.get_field(&sp, "r")?;
            list(self, v)?.remove(0)
        };
        let (z1, z2) = (self.get_field(&sp, "z1")?.poly()?, self.get_field(&sp, "z2")?.poly()?);
        let g = {
            let v = self.get_field(&proof, "halo_g")?;
            list(self, v)?.remove(0)
        };
        // everything opened in the clear is independent of the randomness of the commitments
        for (nm, p) in &scalars {
            let bad: Vec<TermId> = p.atoms().into_iter().filter(rnd).collect();
            self.check(&format!("{} {}", key, nm), site, "an opened value contains no blinding factor", bad.is_empty(), || show_d(bad[0], 2));
        }
        self.check(&format!("{} halo_g", key), site, "the folded generator has no part along the blinding point", g.is_zero(), || g.show_d(2));
        // unblinded commitments have no part along the blinding point
        if !blind {
            for (nm, p) in msgs.iter().take(commitments) {
                self.check(&format!("{} {} plain", key, nm), site, "without blinding, a commitment has no part along the blinding point", p.is_zero(), || p.show_d(2));
            }
            msgs.drain(..commitments);
        }
        msgs.push(("schnorr z1".into(), z1.clone()));
        msgs.push(("schnorr z2".into(), z2.clone()));
        // given all messages before it, each is uniformly distributed: a random value of its own occurs in it, linearly
        let mut before: BTreeSet<TermId> = BTreeSet::new();
        let mut own: BTreeMap<String, BTreeSet<TermId>> = BTreeMap::new();
        for (nm, p) in &msgs {
            let at: BTreeSet<TermId> = p.atoms().into_iter().filter(rnd).collect();
            let fresh: BTreeSet<TermId> = at
                .iter()
                .copied()
                .filter(|a| {
                    !before.contains(a)
                        && p.t.iter().all(|(m, _)| match m.iter().find(|x| x.0 == *a) {
                            Some((_, e)) => *e == 1 && m.iter().all(|x| x.0 == *a || !rnd(&x.0)),
                            None => true,
                        })
                })
                .collect();
            self.check(&format!("{} {}", key, nm), site, "a random value found in no earlier message masks this one", !fresh.is_empty(), || p.show_d(2));
            own.insert(nm.clone(), fresh);
            before.extend(at);
        }
        // the nonces of the Schnorr proof are committed to before its challenge and used nowhere else
        let e = BTreeSet::new();
        let (n1, n2) = (own.get("schnorr z1").unwrap_or(&e), own.get("schnorr z2").unwrap_or(&e));
        let ra: BTreeSet<TermId> = rc.atoms();
        self.check(&format!("{} commitment to the nonces", key), site, "the Schnorr commitment is masked by the nonce of the second response", n2.iter().any(|a| ra.contains(a)), || rc.show_d(2));
        self.check(&format!("{} separate nonces", key), site, "each Schnorr response has a nonce of its own", !n1.is_empty() && !n2.is_empty() && n1.iter().all(|a| !z2.atoms().contains(a)), || z2.show_d(2));
        Ok(())
    }

    /// what the prover produces is accepted
    pub fn check_completeness(&mut self) -> R<()> {
        self.scoped(|s| s.check_completeness_())
    }
    fn check_completeness_(&mut self) -> R<()> {
        let site = {
            let d = self.method("Circuit", "generate_proof")?;
            self.site(d)
        };
        let base = self.it.hooks.clone();
        for (ci, (c, inner)) in self.curve_pairs()?.into_iter().enumerate() {
            let k = self.snark(c, inner)?;
            for (log, np, gates, nold) in [(2usize, 2usize, 1usize, 0usize), (2, 0, 3, 1), (3, 9, 2, 1), (3, 20, 1, 0), (3, 11, 3, 2)] {
                if ci > 0 && log > 2 {
                    continue;
                }
                for blind in [true, false] {
                    for full in [true, false] {
                        if log > 2 && blind != full {
                            continue;
                        }
                        for retry in [0, 2] {
                            if retry > 0 && (log > 2 || blind != full) {
                                continue;
                            }
                            self.it.hooks = base.clone();
                            self.hook_protocol(k.pd)?;
                            let mut key = format!("{} log degree {} public inputs {} at {} old proofs {} blinding {} full {}", k.name, log, np, gates, nold, blind, full);
                            if retry > 0 {
                                key += " after retries";
                            }
                            let (k, s2, k2) = (&k, site.clone(), key.clone());
                            self.unit(&key, &site, |s| s.completeness_case(k, log, np, gates, nold, blind, full, retry, &k2, &s2));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// the proof the prover makes of a symbolic witness; with retry > 0, that many attempts of every round of the
    /// reduction yield challenges without a root
    fn prove_case(&mut self, k: &Snark<'tcx>, log: usize, np: usize, gates: usize, nold: usize, blind: bool, retry: usize, zeros: bool) -> R<Proved<'tcx>> {
        let n = 1usize << log;
        let fid = k.pd.sf;
        let circ = self.circuit_value(k, log, np, gates)?;
        // routed wires take fixed values with no structure (their symbolic products would not fit), the others are symbols
        let rows: Vec<Vec<Poly>> = (0..n)
            .map(|i| {
                let mut r = self.atoms_named(fid, &format!("w{}_", i), k.nw);
                for (j, x) in r.iter_mut().enumerate().take(k.nr) {
                    *x = fixed(fid, 1000 * i + j);
                }
                // a wire that is never used
                if zeros {
                    r[k.nw - 1] = Poly::zero(fid);
                }
                // wires of public input gates beyond the last public input carry nothing
                for (j, x) in r.iter_mut().enumerate() {
                    if i >= gates && (i - gates) % 2 == 0 && i - gates < 2 * ((np + k.nw - 1) / k.nw) && (i - gates) / 2 * k.nw + j >= np {
                        *x = Poly::zero(fid);
                    }
                }
                r
            })
            .collect();
        let wit = self.witness_value(k, &rows)?;
        // old proofs whose generators are what they claim to be
        let mut olds = vec![];
        for i in 0..nold {
            let us = self.atoms_named(fid, &format!("oldu{}_", i), log);
            let mut s = Poly::zero(fid);
            for j in 0..n {
                let mut c = Poly::one(fid);
                for b in 0..log {
                    let u = &us[log - 1 - b];
                    c = c.mul(&if j >> b & 1 == 1 { u.clone() } else { u.inv() });
                }
                s = s.add(&c.mul(&self.gen_blake(k, j)?));
            }
            let ty::Adt(d, a) = k.old_t.kind() else { return unsup("OldProof") };
            let mut f = vec![];
            for fd in &d.non_enum_variant().fields {
                let ft = self.it.field_type(fd, a);
                f.push(if ft == k.pd.aff { k.pd.aff(&mut self.it, &s) } else { fseq(&us) });
            }
            olds.push(adt(k.old_t, 0, f));
        }
        // the permutation argument and the quotient are opaque polynomials here
        let z = self.atoms_named(fid, "z", n);
        let mut t = self.atoms_named(fid, "t", k.nt * n);
        if zeros {
            t.truncate((k.nt - 1) * n);
        }
        let vp = self.atoms_named(fid, "vanish", 8 * n);
        let sf = self.scalar(k.c)?;
        let (tp, vpp) = (self.polynomial(sf, &t)?, self.polynomial(sf, &vp)?);
        self.it.hooks.insert("plonk_util::permutation_polynomial".into(), Rc::new(move |_, _, _, _| Ok(Some(fseq(&z)))));
        self.it.hooks.insert("Circuit::vanishing_poly".into(), Rc::new(move |_, _, _, _| Ok(Some(vpp.clone()))));
        self.it.hooks.insert("Polynomial::divide_by_z_h".into(), Rc::new(move |_, _, _, _| Ok(Some(tp.clone()))));
        // the gates' constraints: opaque values, in which the quotient identity is linear
        let kon = name("constraint value");
        self.it.atom_fields.insert(kon, fid);
        self.it.hooks.insert("gates::evaluate_all_constraints".into(), Rc::new(move |_, _, _, _| Ok(Some(fseq(&[Poly::atom(fid, kon)])))));
        let gp = self.method("Circuit", "generate_proof")?;
        let gga = self.tcx.mk_args(&[k.c.into(), k.inner.into()]);
        let attempts: Rc<RefCell<Vec<TermId>>> = Rc::new(RefCell::new(vec![]));
        let sqrt = self.it.hooks.get("Field::square_root").cloned();
        if retry > 0 {
            let Some(inner) = sqrt.clone() else { return unsup("square roots are not modelled") };
            let seen = attempts.clone();
            self.it.hooks.insert(
                "Field::square_root".into(),
                Rc::new(move |it, i, a, dt| {
                    let x = it.deref_all(&a[0])?;
                    let t = it.vkey(&x);
                    seen.borrow_mut().push(t);
                    if seen.borrow().len() > 200 {
                        return unsup("too many attempts");
                    }
                    if seen.borrow().len() % (retry + 1) != 0 {
                        return Ok(Some(adt(dt, 0, vec![])));
                    }
                    inner(it, i, a, dt)
                }),
            );
        }
        let old_gen = self.it.eq_generic;
        self.it.eq_generic = true;
        let r = self.call(gp, gga, vec![ptr_to(circ.clone()), ptr_to(wit.clone()), sref(olds.clone()), V::Int(blind as u128)]);
        self.it.eq_generic = old_gen;
        if let Some(h) = sqrt {
            self.it.hooks.insert("Field::square_root".into(), h);
        }
        let result = r?;
        let attempts = attempts.borrow().clone();
        Ok(Proved { circ, wit, rows, olds, kon, result, attempts })
    }
    fn completeness_case(&mut self, k: &Snark<'tcx>, log: usize, np: usize, gates: usize, nold: usize, blind: bool, full: bool, retry: usize, key: &str, site: &str) -> R<()> {
        let Proved { circ, wit, rows, olds, kon, result: r, attempts } = self.prove_case(k, log, np, gates, nold, blind, retry, false)?;
        let (vd, vga) = self.verify_fn(k)?;
        let (v, f) = self.it.variant(&r)?;
        self.check(&format!("{} proves", key), site, "a proof is produced", v == 0, || r.show_d(3));
        if v != 0 {
            return Ok(());
        }
        if retry > 0 {
            let d: BTreeSet<TermId> = attempts.iter().copied().collect();
            self.check(&format!("{} attempts", key), site, "every attempt at a round has a challenge of its own", d.len() == attempts.len() && attempts.len() == log * (retry + 1), || format!("{} attempts, {} challenges", attempts.len(), d.len()));
        }
        let proof = f[0].clone();
        let vk = self.call_m("Circuit", "to_vk", &[k.c], vec![ptr_to(circ.clone())])?;
        let vk = if blind {
            vk
        } else {
            // a key without precomputations, as after deserialisation
            let r = ptr_to(vk);
            self.call_m("VerificationKey", "clear_all", &[k.c], vec![r.clone()])?;
            self.it.deref_all(&r)?
        };
        let pis = self.call_m("Circuit", "get_public_inputs", &[k.c], vec![ptr_to(circ.clone()), ptr_to(wit.clone())])?;
        let pis = self.polys_of(&pis)?;
        let want: Vec<Poly> = (0..np).map(|i| rows[gates + 2 * (i / k.nw)][i % k.nw].clone()).collect();
        self.check(&format!("{} public inputs", key), site, "the public inputs are the wires of the public input gates", pis == want, || format!("{} values", pis.len()));
        let args = vec![fref(&pis), ptr_to(proof.clone()), sref(olds.clone()), ptr_to(vk.clone()), V::Int(full as u128)];
        // comparisons the prover assumed generic stay so
        let before = self.it.conds.clone();
        let paths = self.paths(60, |s| {
            for (t, d, _) in &before {
                s.it.assumed.insert(*t, *d);
            }
            let r = s.call(vd, vga, args.clone())?;
            Ok(s.it.variant(&r)?.0 == 0)
        })?;
        let mut acc = 0;
        let mut why: Option<String> = None;
        for p in &paths {
            match &p.r {
                Ok(true) => {
                    acc += 1;
                }
                Err(Stop::Unsupported(m)) => return unsup(m.clone()),
                r => {
                    // a rejection: excused only when the quotient identity was decided against
                    let hold = holding(&p.conds);
                    let excused = hold.iter().any(|(t, yes)| {
                        let mut s = BTreeSet::new();
                        deep_term(*t, &mut s);
                        (!*yes && s.contains(&kon)) || (*yes && degenerate(*t))
                    });
                    let forced = p.conds.iter().all(|c| c.2);
                    if !excused {
                        let last = hold.last().map(|(t, y)| format!("{} = {}", show_d(*t, 3), y)).unwrap_or_default();
                        let o = match r {
                            Err(Stop::Panic(m)) => format!("diverges: {}", m),
                            _ => "rejects".to_string(),
                        };
                        why.get_or_insert(format!("the verifier {} ({}); last condition {}", o, if forced { "always" } else { "possibly" }, last.chars().take(300).collect::<String>()));
                    }
                }
            }
        }
        self.check(&format!("{} accepted", key), site, "a proof of a satisfied circuit is accepted by the verifier", why.is_none() && acc > 0, || why.unwrap_or("every path rejects".into()));
        Ok(())
    }
}

pub struct Proved<'tcx> {
    circ: V<'tcx>,
    wit: V<'tcx>,
    rows: Vec<Vec<Poly>>,
    olds: Vec<V<'tcx>>,
    kon: TermId,
    result: V<'tcx>,
    attempts: Vec<TermId>,
}

/// a field element without structure
pub fn fixed(fid: FieldId, i: usize) -> Poly {
    let p = field_p(fid);
    let mut x = num_bigint::BigUint::from(i as u64 + 7);
    for _ in 0..5 {
        x = x.modpow(&num_bigint::BigUint::from(5u32), &p) + 12345u32;
    }
    Poly::constant(fid, x % p)
}

/// is this the condition that a single challenge takes one of a few values
pub fn degenerate(t: TermId) -> bool {
    match term(t) {
        Term::App(o, a) if o == "is0" => matches!(term(a[0]), Term::P(p) if p.atoms().len() == 1),
        _ => false,
    }
}
