//! The plookup protocol: what acceptance by its verifier implies, what its challenges depend on, and that the
//! prover's polynomials satisfy what the verifier checks.
use crate::base::*;
use crate::interp::*;
use crate::pdom::*;
use crate::poly::*;
use crate::proto::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

const COMMS: [&str; 6] = ["c_f", "c_t", "c_h1", "c_h2", "c_z", "c_quotient"];
const OPENED: [&str; 6] = ["f", "t", "h1", "h2", "z", "quotient"];

struct Ops {
    local: Vec<Poly>,
    right: Vec<Poly>,
}

/// the combination of the row conditions of the lookup argument at x: f, t, h1, h2, z there and at g x
fn spec_numerator(n: usize, g: &Poly, x: &Poly, o: &Ops, beta: &Poly, gamma: &Poly, alpha: &Poly) -> Poly {
    let fid = x.fid;
    let one = Poly::one(fid);
    let l = |i: usize| -> Poly {
        // sum_j (x / g^i)^j / (n + 1)
        let y = x.mul(&g.pow(i as u64).inv());
        let mut s = Poly::zero(fid);
        for j in 0..n + 1 {
            s = s.add(&y.pow(j as u64));
        }
        s.mul(&Poly::int(fid, n as u64 + 1).inv())
    };
    let (b1, gb1) = (beta.add(&one), gamma.mul(&beta.add(&one)));
    let pair = |i: usize| gb1.add(&o.local[i]).add(&beta.mul(&o.right[i]));
    let last = g.pow(n as u64);
    let terms = [
        l(0).mul(&o.local[4].sub(&one)),
        x.sub(&last).mul(&o.local[4].mul(&b1).mul(&gamma.add(&o.local[0])).mul(&pair(1)).sub(&o.right[4].mul(&pair(2)).mul(&pair(3)))),
        l(n).mul(&o.local[2].sub(&o.right[3])),
        l(n).mul(&o.local[4].sub(&one)),
    ];
    horner(&terms, alpha)
}

impl<'tcx> Ctx<'tcx> {
    fn plk_snark(&mut self, c: Ty<'tcx>, inner: Ty<'tcx>) -> R<Snark<'tcx>> {
        let pd = self.pd(c)?;
        let d = self.find_adt("PlookupProof")?;
        let t = self.ty_of(d, &[c]);
        Ok(Snark { c, inner, pd, nw: 0, nr: 0, nc: 0, nt: 0, grid: 0, bits: self.const_usize("SECURITY_BITS")?, proof_t: t, old_t: t, vk_t: t, name: self.it.head(c) })
    }
    fn plk_lens(&self, n: usize, rounds: (usize, usize)) -> Lens {
        let mut d = HashMap::new();
        for (k, v) in [("n", n), ("halo_proof.halo_l", rounds.0), ("halo_proof.halo_r", rounds.1), ("halo_l", rounds.0), ("halo_r", rounds.1)] {
            d.insert(k.to_string(), v);
        }
        Lens { d }
    }
    fn plk_openings(&mut self, proof: &V<'tcx>) -> R<Ops> {
        let o = self.get_field(proof, "openings")?;
        let (mut local, mut right) = (vec![], vec![]);
        for n in OPENED {
            let x = self.get_field(&o, n)?;
            local.push(self.get_field(&x, "local")?.poly()?);
            right.push(self.get_field(&x, "right")?.poly()?);
        }
        Ok(Ops { local, right })
    }
    fn plk_challenges(&mut self, k: &Snark<'tcx>, proof: &V<'tcx>) -> R<Option<Chal>> {
        let r = self.call_m("PlookupProof", "get_challenges", &[k.c], vec![ptr_to(proof.clone())])?;
        let (v, f) = self.it.variant(&r)?;
        if v != 0 {
            return Ok(None);
        }
        let ch = f[0].clone();
        let mut g = |s: &mut Self, n: &str| -> R<Poly> { s.get_field(&ch, n)?.poly() };
        let (beta, gamma, alpha, zeta) = (g(self, "beta")?, g(self, "gamma")?, g(self, "alpha")?, g(self, "zeta")?);
        let (v, u, us, schnorr) = (g(self, "v")?, g(self, "u")?, g(self, "u_scaling")?, g(self, "schnorr_challenge")?);
        let h = self.get_field(&ch, "halo_us")?;
        let halo = self.polys_of(&h)?;
        Ok(Some(Chal { beta, gamma, alpha, zeta, v, u, us, schnorr, halo }))
    }

    pub fn check_plk_verifier(&mut self) -> R<()> {
        self.scoped(|s| s.check_plk_verifier_())
    }
    fn check_plk_verifier_(&mut self) -> R<()> {
        let d = self.find_fn("verifier::verify")?;
        let site = self.site(d);
        let gd = self.method("PlookupProof", "get_challenges")?;
        let gsite = self.site(gd);
        let base = self.it.hooks.clone();
        for (c, inner) in self.curve_pairs()? {
            let k = self.plk_snark(c, inner)?;
            self.it.hooks = base.clone();
            self.hook_protocol(k.pd)?;
            for log in [1usize, 2, 3] {
                let key = format!("{} domain {} challenges", k.name, 1 << log);
                let (k, s2, k2) = (&k, gsite.clone(), key.clone());
                self.unit(&key, &gsite, |s| s.plk_transcript(k, log, &k2, &s2));
            }
            for (log, len) in [(1usize, 1usize), (1, 2), (2, 1), (2, 3), (2, 4), (3, 2), (3, 8)] {
                let key = format!("{} domain {} table of {}", k.name, 1 << log, len);
                let (k, s2, k2) = (&k, site.clone(), key.clone());
                self.unit(&key, &site, |s| s.plk_verifier_case(k, d, log, len, &k2, &s2));
            }
            // sizes that must not be accepted
            let mut bad: Vec<(String, usize, usize, usize, usize)> = vec![];
            for n in [1usize, 3, 7] {
                let l = (n + 1).trailing_zeros() as usize + 1;
                for (a, b) in [(l - 1, l - 1), (l + 1, l + 1), (l - 1, l), (l, l - 1), (l + 1, l), (l, l + 1)] {
                    bad.push((format!("{} and {} rounds for n = {}", a, b, n), n, 1, a, b));
                }
                bad.push((format!("a table of {} for n = {}", n + 2, n), n, n + 2, l, l));
                bad.push((format!("an empty table for n = {}", n), n, 0, l, l));
            }
            for n in [2usize, 4, 5, 6, 8] {
                for l in 1..5 {
                    bad.push((format!("n = {} with {} rounds", n, l), n, 1, l, l));
                }
            }
            for (what, n, len, a, b) in bad {
                let key = format!("{} {}", k.name, what);
                let (k, s2, k2) = (&k, site.clone(), key.clone());
                self.unit(&key, &site, |s| {
                    let l = s.plk_lens(n, (a, b));
                    let proof = s.sym_data(&k.pd, k.proof_t, "", &l)?;
                    let t = fvec(k.pd.sf, "t", len);
                    let ga = s.tcx.mk_args(&[k.c.into()]);
                    s.reject_case(d, ga, vec![fref(&t), ptr_to(proof)], &k2, &s2)
                });
            }
        }
        Ok(())
    }
    fn plk_transcript(&mut self, k: &Snark<'tcx>, log: usize, key: &str, site: &str) -> R<()> {
        let l = self.plk_lens((1 << log) - 1, (log + 1, log + 1));
        let proof = self.sym_data(&k.pd, k.proof_t, "", &l)?;
        let paths = self.paths(64, |s| s.plk_challenges(k, &proof))?;
        for (i, p) in paths.into_iter().enumerate() {
            let key = if i == 0 { key.to_string() } else { format!("{} path {}", key, i) };
            let ch = match p.r {
                Ok(Some(c)) => c,
                Ok(None) => continue,
                // the transcript of a proof whose challenges are not squares does not exist
                Err(Stop::Panic(_)) if i > 0 => continue,
                Err(e) => return Err(e),
            };
            self.check(&format!("{} rounds", key), site, "one challenge per round of the opening argument", ch.halo.len() == log + 1, || format!("{} challenges for {} rounds", ch.halo.len(), log + 1));
            let mut need: Vec<TermId> = vec![];
            let mut all: Vec<(String, Poly, Vec<TermId>)> = vec![];
            let mut grab = |s: &mut Self, need: &mut Vec<TermId>, ns: &[&str]| -> R<()> {
                for n in ns {
                    let v = s.get_field(&proof, n)?;
                    s.atoms_in(&v, need)?;
                }
                Ok(())
            };
            grab(self, &mut need, &COMMS[..4])?;
            all.push(("beta".into(), ch.beta.clone(), need.clone()));
            all.push(("gamma".into(), ch.gamma.clone(), need.clone()));
            grab(self, &mut need, &["c_z"])?;
            all.push(("alpha".into(), ch.alpha.clone(), need.clone()));
            grab(self, &mut need, &["c_quotient"])?;
            all.push(("zeta".into(), ch.zeta.clone(), need.clone()));
            grab(self, &mut need, &["openings"])?;
            for (n, p) in [("v", &ch.v), ("u", &ch.u), ("u_scaling", &ch.us)] {
                all.push((n.into(), p.clone(), need.clone()));
            }
            let hp = self.get_field(&proof, "halo_proof")?;
            let (hl, hr) = (self.get_field(&hp, "halo_l")?, self.get_field(&hp, "halo_r")?);
            let (hl, hr) = (self.it.seq_items(&hl)?, self.it.seq_items(&hr)?);
            for (i, u) in ch.halo.iter().enumerate() {
                if i < hl.len() {
                    self.atoms_in(&hl[i], &mut need)?;
                    self.atoms_in(&hr[i], &mut need)?;
                }
                all.push((format!("halo_us[{}]", i), u.clone(), need.clone()));
            }
            let sp = self.get_field(&hp, "schnorr_proof")?;
            let r = self.get_field(&sp, "r")?;
            self.atoms_in(&r, &mut need)?;
            all.push(("schnorr_challenge".into(), ch.schnorr.clone(), need.clone()));
            let mut seen: HashMap<Poly, String> = HashMap::new();
            let mut dup = None;
            for (n, p, need) in &all {
                let mut at = BTreeSet::new();
                p.deep_atoms(&mut at);
                let miss: BTreeSet<String> = need.iter().filter(|x| !at.contains(x)).map(|x| show(*x)).collect();
                self.check(&format!("{} {} binds", key, n), site, &format!("{} depends on every message that must precede it", n.split('[').next().unwrap()), miss.is_empty(), || {
                    format!("{} earlier messages do not influence {}: {}", miss.len(), n, miss.iter().take(4).cloned().collect::<Vec<_>>().join(", "))
                });
                if let Some(o) = seen.insert(p.clone(), n.clone()) {
                    dup = Some((o, n.clone()));
                }
            }
            self.check(&format!("{} distinct", key), site, "the challenges are different functions of the transcript", dup.is_none(), || {
                let (a, b) = dup.clone().unwrap();
                format!("{} and {} are always equal", a, b)
            });
        }
        Ok(())
    }
    fn plk_spec(&mut self, k: &Snark<'tcx>, proof: &V<'tcx>, t: &[Poly], log: usize, ch: &Chal) -> R<Vec<(String, Poly, TermId)>> {
        let fid = k.pd.sf;
        let one = Poly::one(fid);
        let size = 1usize << log;
        let n = size - 1;
        let g = self.root_of(k, log)?;
        let o = self.plk_openings(proof)?;
        let mut out = vec![];
        let pt = |s: &mut Self, v: &V<'tcx>, nm: &str| -> R<Poly> {
            let x = s.get_field(v, nm)?;
            k.pd.of(&mut s.it, &x)
        };
        // the table
        let last = t[t.len() - 1].clone();
        let mut padded = t.to_vec();
        padded.resize(size, last);
        let mut ct = Poly::zero(fid);
        for j in 0..size {
            let mut c = Poly::zero(fid);
            for (i, v) in padded.iter().enumerate() {
                c = c.add(&v.mul(&g.pow((i * j) as u64).inv()));
            }
            ct = ct.add(&c.mul(&Poly::int(fid, size as u64).inv()).mul(&self.gen_blake(k, j)?));
        }
        let c_t = pt(self, proof, "c_t")?;
        out.push(("table commitment".to_string(), c_t.sub(&ct), c_t.as_atom().unwrap()));
        // quotient identity
        let num = spec_numerator(n, &g, &ch.zeta, &o, &ch.beta, &ch.gamma, &ch.alpha);
        let zh = ch.zeta.pow(size as u64).sub(&one);
        out.push(("quotient identity".to_string(), num.sub(&o.local[5].mul(&zh)), o.local[5].as_atom().unwrap()));
        // the opening argument
        let dot = |a: &[Poly], b: &[Poly]| a.iter().zip(b).fold(Poly::zero(fid), |s, (x, y)| s.add(&x.mul(y)));
        let (mut comms, mut sc) = (vec![], vec![]);
        for (i, nm) in COMMS.iter().enumerate() {
            comms.push(pt(self, proof, nm)?);
            let up = ch.u.pow(i as u64);
            sc.push(self.n_of(k, &up)?);
        }
        let val = horner(&[dot(&o.local, &sc), dot(&o.right, &sc)], &ch.v);
        let hb = horner(&[spec_halo_g(&ch.zeta, &ch.halo), spec_halo_g(&ch.zeta.mul(&g), &ch.halo)], &ch.v);
        let nu = self.n_of(k, &ch.us)?;
        let up = self.gen_blake(k, 2 * size + 1)?.mul(&nu);
        let h = self.gen_blake(k, 2 * size)?;
        let mut q = dot(&comms, &sc).add(&up.mul(&val));
        let hp = self.get_field(proof, "halo_proof")?;
        let (hl, hr) = (self.get_field(&hp, "halo_l")?, self.get_field(&hp, "halo_r")?);
        let (hl, hr) = (self.pts_of(&k.pd, &hl)?, self.pts_of(&k.pd, &hr)?);
        for i in 0..ch.halo.len() {
            let u2 = ch.halo[i].mul(&ch.halo[i]);
            q = q.add(&hl[i].mul(&u2)).add(&hr[i].mul(&u2.inv()));
        }
        let sp = self.get_field(&hp, "schnorr_proof")?;
        let sr = pt(self, &sp, "r")?;
        let (z1, z2) = (self.get_field(&sp, "z1")?.poly()?, self.get_field(&sp, "z2")?.poly()?);
        let hg = pt(self, &hp, "halo_g")?;
        let lhs = ch.schnorr.mul(&q).add(&sr);
        let rhs = z1.mul(&hg.add(&up.mul(&hb))).add(&z2.mul(&h));
        out.push(("opening argument".into(), lhs.sub(&rhs), sr.as_atom().unwrap()));
        // the folded generator
        let mut s = Poly::zero(fid);
        let rounds = log + 1;
        for i in 0..2 * size {
            let mut c = one.clone();
            for j in 0..rounds {
                let u = &ch.halo[rounds - 1 - j];
                c = c.mul(&if i >> j & 1 == 1 { u.clone() } else { u.inv() });
            }
            s = s.add(&c.mul(&self.gen_blake(k, i)?));
        }
        out.push(("folded generator".into(), hg.sub(&s), hg.as_atom().unwrap()));
        Ok(out)
    }
    fn plk_verifier_case(&mut self, k: &Snark<'tcx>, d: DefId, log: usize, len: usize, key: &str, site: &str) -> R<()> {
        let size = 1usize << log;
        let l = self.plk_lens(size - 1, (log + 1, log + 1));
        let proof = self.sym_data(&k.pd, k.proof_t, "", &l)?;
        let t = self.atoms_named(k.pd.sf, "table", len);
        let Some(ch) = self.plk_challenges(k, &proof)? else { return unsup("no challenges") };
        let spec = self.plk_spec(k, &proof, &t, log, &ch)?;
        // the challenge avoids the domain, except with negligible probability
        let g = self.root_of(k, log)?;
        let dom: Vec<Poly> = (0..size).map(|i| ch.zeta.sub(&g.pow(i as u64))).collect();
        let ga = self.tcx.mk_args(&[k.c.into()]);
        let args = vec![fref(&t), ptr_to(proof.clone())];
        let paths = self.paths(400, |s| {
            let r = s.call(d, ga, args.clone())?;
            Ok(s.it.variant(&r)?.0 == 0)
        })?;
        let mut pts = vec![];
        for n in COMMS {
            let x = self.get_field(&proof, n)?;
            pts.push((n.to_string(), k.pd.of(&mut self.it, &x)?));
        }
        let hp = self.get_field(&proof, "halo_proof")?;
        for n in ["halo_l", "halo_r"] {
            let l = self.get_field(&hp, n)?;
            for (i, x) in self.pts_of(&k.pd, &l)?.into_iter().enumerate() {
                pts.push((format!("{}[{}]", n, i), x));
            }
        }
        let x = self.get_field(&hp, "halo_g")?;
        pts.push(("halo_g".into(), k.pd.of(&mut self.it, &x)?));
        let sp = self.get_field(&hp, "schnorr_proof")?;
        let x = self.get_field(&sp, "r")?;
        pts.push(("schnorr_proof.r".into(), k.pd.of(&mut self.it, &x)?));
        let mut acc = 0;
        for p in &paths {
            match &p.r {
                Ok(false) | Err(Stop::Panic(_)) => {}
                Err(Stop::Unsupported(m)) => return unsup(m.clone()),
                Ok(true) => {
                    let mut valid: BTreeSet<TermId> = BTreeSet::new();
                    let mut eqs: Vec<Poly> = vec![];
                    for (t, yes) in holding(&p.conds) {
                        if let Term::App(op, a) = term(t) {
                            match op.as_str() {
                                "valid" if yes => {
                                    valid.insert(a[0]);
                                }
                                "is0" if yes => {
                                    if let Term::P(q) = term(a[0]) {
                                        eqs.push(q);
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    if eqs.iter().any(|e| dom.iter().any(|x| crate::circ::proportional(e, x))) {
                        continue;
                    }
                    acc += 1;
                    for (n, q) in &pts {
                        let kk = self.it.vkey(&V::F(q.clone()));
                        // the commitment to the table is compared with one that is computed
                        let fixed = n == "c_t" && implied(&eqs, &spec[0].1, spec[0].2);
                        self.check(&format!("{} valid {}", key, n), site, "an accepted proof's points are on the curve", fixed || valid.contains(&kk), || format!("{} is accepted without a validity check", n));
                    }
                    for (n, res, at) in &spec {
                        let ok = implied(&eqs, res, *at);
                        self.check(&format!("{} {}", key, n), site, &format!("acceptance implies the {}", n), ok, || format!("no accepting condition is equivalent to {}", res.show_d(2)));
                    }
                }
            }
        }
        self.check(&format!("{} accepts", key), site, "some proof is accepted", acc > 0, || "every path rejects".into());
        Ok(())
    }
}

impl<'tcx> Ctx<'tcx> {
    pub fn check_plk_prover(&mut self) -> R<()> {
        self.scoped(|s| s.check_plk_prover_())
    }
    fn check_plk_prover_(&mut self) -> R<()> {
        let site = {
            let d = self.find_fn("plookup::prove")?;
            self.site(d)
        };
        let base = self.it.hooks.clone();
        for (ci, (c, inner)) in self.curve_pairs()?.into_iter().enumerate() {
            let k = self.plk_snark(c, inner)?;
            self.it.hooks = base.clone();
            for log in [1usize, 2] {
                let key = format!("{} vanishing polynomial on {}", k.name, 1 << log);
                let (k, k2) = (&k, key.clone());
                self.unit(&key, &site, |s| s.plk_vanishing(k, log, &k2));
            }
            let key = format!("{} Lagrange basis", k.name);
            let (k1, k2) = (&k, key.clone());
            self.unit(&key, &site, |s| s.plk_lagrange(k1, &k2));
            // table sizes and the entries looked up
            let cases: Vec<(usize, Vec<usize>)> = lookups().into_iter().filter(|(d, f)| ci == 0 || d + f.len() < 5).collect();
            for (d, f) in &cases {
                let key = format!("{} {:?} in a table of {}", k.name, f, d);
                let (k1, k2) = (&k, key.clone());
                self.unit(&key, &site, |s| s.plk_honest(k1, *d, f, &k2));
            }
            for (d, f) in cases.iter().filter(|(d, f)| *d <= 4 && f.len() <= 3) {
                self.it.hooks = base.clone();
                self.hook_protocol(k.pd)?;
                let key = format!("{} proof of {:?} in a table of {}", k.name, f, d);
                let (k1, k2, s2) = (&k, key.clone(), site.clone());
                self.unit(&key, &site, |s| s.scoped(|s| s.plk_end_to_end(k1, *d, f, None, &k2, &s2)));
            }
            for w in [1usize, 2, 3] {
                for (d, f) in [(2usize, vec![0usize]), (2, vec![1, 0]), (2, vec![1, 0, 0]), (4, vec![2, 0, 2])] {
                    for cols in [false, true] {
                        if w == 1 && d == 4 || w == 3 && d != 2 {
                            continue;
                        }
                        self.it.hooks = base.clone();
                        self.hook_protocol(k.pd)?;
                        let key = format!("{} proof of {} {:?} of a table of {} rows of width {}", k.name, if cols { "columns of rows" } else { "rows" }, f, d, w);
                        let (k1, k2, s2) = (&k, key.clone(), site.clone());
                        self.unit(&key, &site, |s| s.scoped(|s| s.plk_end_to_end(k1, d, &f, Some((w, cols)), &k2, &s2)));
                    }
                }
            }
            self.it.hooks = base.clone();
            for w in [2usize, 3] {
                let key = format!("{} tables of width {} from a function", k.name, w);
                let (k1, k2) = (&k, key.clone());
                self.unit(&key, &site, |s| s.plk_tables(k1, w, &k2));
            }
        }
        Ok(())
    }
    fn plk_lagrange(&mut self, k: &Snark<'tcx>, key: &str) -> R<()> {
        let sf = self.scalar(k.c)?;
        let d = self.find_fn("plookup::eval_l_i")?;
        let site = self.site(d);
        let ga = self.tcx.mk_args(&[sf.into()]);
        for log in 1..4usize {
            let size = 1 << log;
            let g = self.root_of(k, log)?;
            let x = self.atoms_named(k.pd.sf, "x", 1)[0].clone();
            for i in 0..size {
                let mut pts: Vec<Poly> = (0..size).map(|j| g.pow(j as u64)).collect();
                pts.push(x.clone());
                for (j, p) in pts.into_iter().enumerate() {
                    let v = self.call(d, ga, vec![V::Int(size as u128), V::Int(i as u128), V::F(g.clone()), V::F(p.clone())])?.poly()?;
                    let mut vals = vec![Poly::zero(p.fid); size];
                    vals[i] = Poly::one(p.fid);
                    let want = lagrange_at(&g, &vals, &p);
                    let at = if j < size { "on the domain" } else { "elsewhere" };
                    self.check(&format!("{} {} of {} {} {}", key, i, size, at, j), &site, "a Lagrange basis polynomial is one at its own point, zero at the other points of the domain, and the interpolant elsewhere", v.sub(&want).is_zero(), || v.show_d(3));
                }
            }
        }
        Ok(())
    }
    fn plk_vanishing(&mut self, k: &Snark<'tcx>, log: usize, key: &str) -> R<()> {
        let sf = self.scalar(k.c)?;
        let fid = k.pd.sf;
        let size = 1usize << log;
        let d = self.find_fn("plookup::vanishing_polynomial")?;
        let site = self.site(d);
        let mut ps = vec![];
        let mut cs = vec![];
        for n in &OPENED[..5] {
            let c = self.atoms_named(fid, &format!("{}_", n), size);
            ps.push(ptr_to(self.polynomial(sf, &c)?));
            cs.push(c);
        }
        let ch = self.atoms_named(fid, "challenge", 3);
        let mut args = ps;
        args.extend(ch.iter().map(|p| V::F(p.clone())));
        args.push(V::Int(size as u128 - 1));
        let r = self.call(d, self.tcx.mk_args(&[sf.into()]), args)?;
        let got = self.coeffs_in(sf, &r)?;
        let x = self.atoms_named(fid, "x", 1)[0].clone();
        let g = self.root_of(k, log)?;
        let o = Ops { local: cs.iter().map(|c| horner(c, &x)).collect(), right: cs.iter().map(|c| horner(c, &x.mul(&g))).collect() };
        let want = spec_numerator(size - 1, &g, &x, &o, &ch[0], &ch[1], &ch[2]);
        let ok = horner(&got, &x).sub(&want).is_zero();
        self.check(key, &site, "the polynomial the prover divides by the vanishing polynomial of the domain is the combination the verifier checks", ok, || format!("{} coefficients", got.len()));
        Ok(())
    }
    /// what the prover makes of lookups that are all in the table
    fn plk_honest(&mut self, k: &Snark<'tcx>, d: usize, f: &[usize], key: &str) -> R<()> {
        let sf = self.scalar(k.c)?;
        let fid = k.pd.sf;
        let ga = self.tcx.mk_args(&[sf.into()]);
        let big = d.max(f.len() + 1) > 4;
        // large cases: table entries without structure
        let t: Vec<Poly> = if big { (0..d).map(|i| fixed(fid, i)).collect() } else { self.atoms_named(fid, "entry", d) };
        let fv: Vec<Poly> = f.iter().map(|i| t[*i].clone()).collect();
        let pd = self.find_fn("plookup::pad_inputs")?;
        let site = self.site(pd);
        let r = self.call(pd, ga, vec![fref(&fv), fref(&t)])?;
        let r = self.it.deref_all(&r)?;
        let (n, fp, tp) = (r.field(0)?.usz()?, r.field(1)?, r.field(2)?);
        let (fp, tp) = (self.polys_of(&fp)?, self.polys_of(&tp)?);
        let shape = (n + 1).is_power_of_two() && fp.len() == n && tp.len() == n + 1 && n >= 1;
        let inside = fp.starts_with(&fv) && tp.starts_with(&t) && fp.iter().all(|x| t.contains(x)) && tp.iter().all(|x| t.contains(x));
        self.check(&format!("{} padded", key), &site, "inputs are extended to fill the domain with entries of the table only", shape && inside, || format!("n = {}, {} lookups of {}, {} entries of {}; only table entries: {}", n, fp.len(), f.len(), tp.len(), d, inside));
        if !(shape && inside) {
            return Ok(());
        }
        let sd = self.find_fn("plookup::sort_by")?;
        let mut all = fp.clone();
        all.extend(tp.clone());
        let sv = ptr_to(fseq(&all));
        self.call(sd, ga, vec![sv.clone(), fref(&tp)])?;
        let s = self.polys_of(&sv)?;
        let pos = |x: &Poly| tp.iter().position(|y| y == x);
        let mut want = all.clone();
        want.sort_by_key(|x| pos(x));
        let site2 = self.site(sd);
        self.check(&format!("{} sorted", key), &site2, "the sorted list has the lookups and the table's entries in the table's order", s == want, || format!("{:?}", s.iter().map(|x| pos(x)).collect::<Vec<_>>()));
        let ch = self.atoms_named(fid, "challenge", 2);
        let (beta, gamma) = (ch[0].clone(), ch[1].clone());
        let gd = self.find_fn("plookup::grand_polynomial")?;
        let site3 = self.site(gd);
        let z = self.call(gd, ga, vec![fref(&fp), fref(&tp), fref(&s), V::F(beta.clone()), V::F(gamma.clone())])?;
        let z = self.polys_of(&z)?;
        let one = Poly::one(fid);
        let ends = z.len() == n + 1 && z[0].sub(&one).is_zero() && z[n].sub(&one).is_zero();
        self.check(&format!("{} ends", key), &site3, "the running product starts and ends with one", ends, || format!("{} values", z.len()));
        if !ends {
            return Ok(());
        }
        let b1 = beta.add(&one);
        let gb1 = gamma.mul(&b1);
        let pair = |v: &[Poly], i: usize| gb1.add(&v[i]).add(&beta.mul(&v[i + 1]));
        for i in 0..n {
            let l = z[i].mul(&b1).mul(&gamma.add(&fp[i])).mul(&pair(&tp, i));
            let r = z[i + 1].mul(&pair(&s[..n + 1], i)).mul(&pair(&s[n..], i));
            self.check(&format!("{} row {}", key, i), &site3, "each value of the running product follows from the one before by the row's factors", l.sub(&r).is_zero(), || format!("row {} of {}", i, n));
        }
        Ok(())
    }
    /// a table with symbolic entries and the rows looked up; as a list of elements without a width
    fn plk_end_to_end(&mut self, k: &Snark<'tcx>, d: usize, f: &[usize], table: Option<(usize, bool)>, key: &str, site: &str) -> R<()> {
        let fid = k.pd.sf;
        let sf = self.scalar(k.c)?;
        let size = (f.len() + 1).max(d).max(2).next_power_of_two();
        let kon = name("Lagrange value");
        if size > 2 {
            // the running product is opaque here; the quotient identity is recognised by its Lagrange values
            self.it.atom_fields.insert(kon, fid);
            let z = self.atoms_named(fid, "z", size);
            let q = self.atoms_named(fid, "q", size);
            let vp = self.atoms_named(fid, "vanish", 4 * size);
            let (qp, vpp) = (self.polynomial(sf, &q)?, self.polynomial(sf, &vp)?);
            self.it.hooks.insert("plookup::grand_polynomial".into(), Rc::new(move |_, _, _, _| Ok(Some(fseq(&z)))));
            self.it.hooks.insert("plookup::vanishing_polynomial".into(), Rc::new(move |_, _, _, _| Ok(Some(vpp.clone()))));
            self.it.hooks.insert("Polynomial::divide_by_z_h".into(), Rc::new(move |_, _, _, _| Ok(Some(qp.clone()))));
            self.it.hooks.insert("plookup::eval_l_i".into(), Rc::new(move |_, _, _, _| Ok(Some(V::F(Poly::atom(fid, kon))))));
        }
        self.it.eq_generic = true;
        let (r, verify): (V<'tcx>, Box<dyn Fn(&mut Self, V<'tcx>) -> R<V<'tcx>>>) = match table {
            None => {
                let t = self.atoms_named(fid, "entry", d);
                let fv: Vec<Poly> = f.iter().map(|i| t[*i].clone()).collect();
                let r = self.call_f("plookup::prove", &[k.c], vec![fref(&fv), fref(&t)])?;
                let c = k.c;
                (r, Box::new(move |s: &mut Self, p| s.call_f("verifier::verify", &[c], vec![fref(&t), ptr_to(p)])))
            }
            Some((w, cols)) => {
                let td = self.find_adt("Table")?;
                let cn = ty::Const::from_target_usize(self.tcx, w as u64);
                let ga = self.tcx.mk_args(&[sf.into(), cn.into()]);
                let tt = Ty::new_adt(self.tcx, self.tcx.adt_def(td), ga);
                let rows: Vec<Vec<Poly>> = (0..d).map(|i| self.atoms_named(fid, &format!("row{}_", i), w)).collect();
                let mk = |r: &[Vec<Poly>]| adt(tt, 0, vec![seq(r.iter().map(|x| fseq(x)).collect())]);
                let tv = mk(&rows);
                let looked: Vec<Vec<Poly>> = f.iter().map(|i| rows[*i].clone()).collect();
                let mga = self.tcx.mk_args(&[sf.into(), cn.into(), k.c.into()]);
                let r = if cols {
                    let c: Vec<V<'tcx>> = (0..w).map(|j| fseq(&looked.iter().map(|r| r[j].clone()).collect::<Vec<_>>())).collect();
                    let m = self.method("Table", "prove_column")?;
                    self.call(m, mga, vec![ptr_to(tv.clone()), sref(c)])?
                } else {
                    let m = self.method("Table", "prove_row")?;
                    self.call(m, mga, vec![ptr_to(tv.clone()), ptr_to(mk(&looked))])?
                };
                let vm = self.method("Table", "verify")?;
                (r, Box::new(move |s: &mut Self, p| s.call(vm, mga, vec![ptr_to(tv.clone()), ptr_to(p)])))
            }
        };
        let (v, fl) = self.it.variant(&r)?;
        self.check(&format!("{} proves", key), site, "a proof is produced for lookups that are in the table", v == 0, || r.show_d(3));
        if v != 0 {
            return Ok(());
        }
        let proof = fl[0].clone();
        // what is committed to: every lookup, and the table
        let g = self.root_of(k, size.trailing_zeros() as usize)?;
        let (mut fvals, mut tvals) = (vec![], vec![]);
        for (n, out) in [("c_f", &mut fvals), ("c_t", &mut tvals)] {
            let x = self.get_field(&proof, n)?;
            let mut rest = k.pd.of(&mut self.it, &x)?;
            let mut co = vec![];
            for j in 0..size {
                let Some(gen) = self.gen_blake(k, j)?.as_atom() else { return unsup("generator") };
                match crate::circ::split_linear(&rest, gen) {
                    Some((c, r, 1)) => {
                        co.push(c);
                        rest = r;
                    }
                    _ => co.push(Poly::zero(fid)),
                }
            }
            for i in 0..size {
                out.push(horner(&co, &g.pow(i as u64)));
            }
        }
        let mut left = fvals[..size - 1].to_vec();
        let mut missing = vec![];
        for (j, i) in f.iter().enumerate() {
            match left.iter().position(|x| x.sub(&tvals[*i]).is_zero()) {
                Some(p) => {
                    left.remove(p);
                }
                None => missing.push(j),
            }
        }
        self.check(&format!("{} commits to the lookups", key), site, "the committed lookups are all those asked for", missing.is_empty(), || format!("lookups {:?} are not among the values committed to", missing));
        if let Some((w, _)) = table {
            let mut first: Option<Vec<Poly>> = None;
            let mut bad = None;
            for i in 0..d {
                let row = self.atoms_named(fid, &format!("row{}_", i), w);
                let mut rest = tvals[i].clone();
                let mut co = vec![];
                for x in &row {
                    match crate::circ::split_linear(&rest, x.as_atom().unwrap()) {
                        Some((c, r, 1)) => {
                            co.push(c);
                            rest = r;
                        }
                        _ => co.push(Poly::zero(fid)),
                    }
                }
                let same = first.as_ref().map(|c| *c == co).unwrap_or(true);
                let distinct = (0..w).all(|a| !co[a].is_zero() && (0..a).all(|b| co[a] != co[b]));
                if !rest.is_zero() || !same || !distinct {
                    bad.get_or_insert(i);
                }
                first = Some(co);
            }
            self.check(&format!("{} compresses rows", key), site, "every row is compressed with the same coefficients, a different one for each column", bad.is_none(), || format!("row {}", bad.unwrap()));
            // the coefficients bind the whole table
            if w > 1 {
                let mut at = BTreeSet::new();
                for c in first.unwrap_or_default() {
                    c.deep_atoms(&mut at);
                }
                let mut lost = vec![];
                for i in 0..d {
                    for x in self.atoms_named(fid, &format!("row{}_", i), w) {
                        if !at.contains(&x.as_atom().unwrap()) {
                            lost.push(x.show());
                        }
                    }
                }
                self.check(&format!("{} binds the table", key), site, "the challenge that compresses rows depends on every entry of the table", lost.is_empty(), || lost.join(", "));
            }
        }
        let before = self.it.conds.clone();
        let paths = self.paths(100, |s| {
            for (t, d, _) in &before {
                s.it.assumed.insert(*t, *d);
            }
            let r = verify(s, proof.clone())?;
            Ok(s.it.variant(&r)?.0 == 0)
        })?;
        let mut acc = 0;
        let mut why: Option<String> = None;
        for p in &paths {
            match &p.r {
                Ok(true) => acc += 1,
                Err(Stop::Unsupported(m)) => return unsup(m.clone()),
                r => {
                    let hold = holding(&p.conds);
                    let excused = hold.iter().any(|(t, yes)| {
                        let mut at = BTreeSet::new();
                        deep_term(*t, &mut at);
                        // the quotient identity where it is opaque, or a challenge in the domain
                        (!*yes && at.contains(&kon)) || (*yes && degenerate(*t))
                    });
                    if !excused {
                        let last = hold.last().map(|(t, y)| format!("{} = {}", show_d(*t, 3), y)).unwrap_or_default();
                        let o = match r {
                            Err(Stop::Panic(m)) => format!("diverges: {}", m),
                            _ => "rejects".to_string(),
                        };
                        why.get_or_insert(format!("the verifier {}; last condition {}", o, last.chars().take(300).collect::<String>()));
                    }
                }
            }
        }
        self.check(&format!("{} accepted", key), site, "a proof of lookups that are in the table is accepted", why.is_none() && acc > 0, || why.unwrap_or("every path rejects".into()));
        Ok(())
    }
    fn plk_tables(&mut self, k: &Snark<'tcx>, w: usize, key: &str) -> R<()> {
        let fid = k.pd.sf;
        let sf = self.scalar(k.c)?;
        let m = w - 1;
        let (cn, cm) = (ty::Const::from_target_usize(self.tcx, w as u64), ty::Const::from_target_usize(self.tcx, m as u64));
        let ga = self.tcx.mk_args(&[sf.into(), cn.into(), cm.into()]);
        // an uninterpreted function of the arguments
        let func = V::Sym(name("tabulated function"), sf);
        let val = move |it: &mut Interp<'tcx>, a: &[Poly]| -> Poly {
            let v = V::Seq(Rc::new(a.iter().map(|p| V::F(p.clone())).collect()));
            let t = app("tabulated", vec![it.vkey(&v)]);
            it.atom_fields.insert(t, fid);
            Poly::atom(fid, t)
        };
        self.it.any_fn = Some(Rc::new(move |it, a| {
            let l: Vec<Poly> = it.seq_items(&a[0])?.iter().map(|x| x.poly()).collect::<R<_>>()?;
            Ok(V::F(val(it, &l)))
        }));
        for d in [1usize, 2, 3] {
            for cart in [false, true] {
                let name = if cart { "from_function_cartesian" } else { "from_function" };
                let me = self.method("Table", name)?;
                let site = self.site(me);
                let (arg, want): (V<'tcx>, Vec<Vec<Poly>>) = if cart {
                    let dom = self.atoms_named(fid, "point", d);
                    let mut rows: Vec<Vec<Poly>> = vec![vec![]];
                    for _ in 0..m {
                        rows = rows.iter().flat_map(|r| dom.iter().map(move |x| [r.clone(), vec![x.clone()]].concat())).collect();
                    }
                    (fref(&dom), rows)
                } else {
                    let dom: Vec<Vec<Poly>> = (0..d).map(|i| self.atoms_named(fid, &format!("arg{}_", i), m)).collect();
                    (sref(dom.iter().map(|x| fseq(x)).collect()), dom)
                };
                let want: Vec<Vec<Poly>> = want
                    .into_iter()
                    .map(|mut r| {
                        let y = val(&mut self.it, &r);
                        r.push(y);
                        r
                    })
                    .collect();
                let t = self.call(me, ga, vec![ptr_to(func.clone()), arg])?;
                let t = self.it.deref_all(&t)?;
                let rows = t.field(0)?;
                let got: Vec<Vec<Poly>> = self.it.seq_items(&rows)?.iter().map(|r| self.polys_of(r)).collect::<R<_>>()?;
                self.check(&format!("{} {} {}", key, name, d), &site, "a tabulated function's rows are its arguments followed by its value, one row per point of the domain", got == want, || format!("{} rows", got.len()));
            }
        }
        Ok(())
    }
}

/// table sizes with the positions of the entries looked up
fn lookups() -> Vec<(usize, Vec<usize>)> {
    let mut v: Vec<(usize, Vec<usize>)> = vec![];
    for d in 1..4usize {
        for m in 0..4u32 {
            for code in 0..(d as u32).pow(m) {
                let f: Vec<usize> = (0..m).map(|i| (code / (d as u32).pow(i)) as usize % d).collect();
                // all of them for up to two lookups, then some
                if m < 3 || d < 3 || code % 5 == 2 {
                    v.push((d, f));
                }
            }
        }
    }
    v.push((4, vec![3, 1, 0]));
    v.push((4, vec![]));
    v.push((5, vec![4, 0]));
    v.push((3, vec![1, 2, 0, 1]));
    v.push((8, vec![7, 3, 3, 0, 5, 1, 7]));
    v.push((2, vec![1, 0, 1, 1, 0, 0, 1]));
    v.push((2, vec![1, 0, 1, 1, 0, 0, 1, 0]));
    v
}
