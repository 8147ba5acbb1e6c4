//! Hashing to a curve: candidates, retries, the choice of the root, and the messages hashed.
use crate::base::*;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use rustc_middle::ty::{Instance, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Default)]
struct Script<'t> {
    /// how many more times parsing fails before each candidate, and how many candidates are not squares
    retry: Vec<usize>,
    nonsq: usize,
    /// concrete values of hash output bytes of the last message
    fixed: HashMap<usize, u128>,
    msgs: Vec<Vec<V<'t>>>,
    parsed: Vec<(Vec<V<'t>>, bool, TermId)>,
    tried: Vec<Poly>,
    sec: Vec<TermId>,
}
type Sh<'t> = Rc<RefCell<Script<'t>>>;

/// hash output bytes (message, position) inside a term
fn outputs(t: TermId, op: &str, out: &mut BTreeSet<(TermId, u128)>, seen: &mut BTreeSet<TermId>) {
    if !seen.insert(t) {
        return;
    }
    match term(t) {
        Term::App(o, a) if o == op && a.len() == 2 => {
            if let Term::Int(i) = term(a[1]) {
                out.insert((a[0], i));
            }
        }
        Term::App(_, a) => a.iter().for_each(|x| outputs(*x, op, out, seen)),
        Term::P(p) | Term::Inv(p) => p.atoms().into_iter().for_each(|x| outputs(x, op, out, seen)),
        _ => {}
    }
}
fn outs(t: TermId, op: &str) -> BTreeSet<(TermId, u128)> {
    let (mut o, mut s) = (BTreeSet::new(), BTreeSet::new());
    outputs(t, op, &mut o, &mut s);
    o
}

impl<'tcx> Ctx<'tcx> {
    fn htc_scope<T>(&mut self, f: impl FnOnce(&mut Self, &Sh<'tcx>) -> R<T>) -> R<T> {
        let hooks = self.it.hooks.clone();
        self.it.skip_model = ["from_canonical_u8_vec", "square_root"].iter().map(|s| s.to_string()).collect();
        let sh: Sh<'tcx> = Default::default();
        let on = |it: &mut Interp<'tcx>, k: &str, h: Rc<dyn Fn(&mut Interp<'tcx>, Instance<'tcx>, &[V<'tcx>], Ty<'tcx>) -> R<Option<V<'tcx>>>>| {
            it.hooks.insert(k.into(), h);
        };
        on(&mut self.it, "Hasher::new", Rc::new(|_, _, _, _| Ok(Some(seq(vec![])))));
        on(
            &mut self.it,
            "Hasher::reset",
            Rc::new(|it, _, a, _| {
                let p = it.base_ptr(&a[0])?;
                it.set(&p, seq(vec![]))?;
                Ok(Some(a[0].clone()))
            }),
        );
        on(
            &mut self.it,
            "Hasher::update",
            Rc::new(|it, _, a, _| {
                let p = it.base_ptr(&a[0])?;
                let mut m = it.seq_items(&a[0])?.to_vec();
                m.extend(it.seq_items(&a[1])?.iter().cloned());
                it.set(&p, seq(m))?;
                Ok(Some(a[0].clone()))
            }),
        );
        let s = sh.clone();
        on(
            &mut self.it,
            "Hasher::finalize_xof",
            Rc::new(move |it, _, a, _| {
                let m = it.seq_items(&a[0])?;
                s.borrow_mut().msgs.push(m.to_vec());
                Ok(Some(seq(vec![seq(m.to_vec()), V::Int(0)])))
            }),
        );
        let s = sh.clone();
        on(
            &mut self.it,
            "OutputReader::fill",
            Rc::new(move |it, _, a, _| {
                let r = it.seq_items(&a[0])?;
                let (k, pos) = (it.vkey(&r[0]), r[1].usz()?);
                let buf = it.base_ptr(&a[1])?;
                let n = it.len_of(&buf)?;
                for i in 0..n {
                    let o = app("blake", vec![k, intern(Term::Int((pos + i) as u128))]);
                    let fixed = s.borrow().fixed.get(&(pos + i)).cloned();
                    let v = fixed.map(V::Int).unwrap_or(V::Sym(o, it.tcx.types.u8));
                    let q = it.index_ptr(&buf, i);
                    it.set(&q, v)?;
                }
                let p = it.base_ptr(&a[0])?;
                it.set(&p, seq(vec![r[0].clone(), V::Int((pos + n) as u128)]))?;
                Ok(Some(it.unit()))
            }),
        );
        let s = sh.clone();
        on(
            &mut self.it,
            "Field::from_canonical_u8_vec",
            Rc::new(move |it, inst, args, dt| {
                let st = inst.args.types().next().or_else(|| dt.walk().filter_map(|t| t.as_type()).nth(1));
                let Some(fid) = dt.walk().filter_map(|t| t.as_type()).chain(st).find_map(|t| it.field_ty(t)) else { return unsup("field of from_canonical_u8_vec") };
                let l = it.seq_items(&args[0])?.to_vec();
                let k = it.vkey(&seq(l.clone()));
                let a = app("parsed", vec![k]);
                it.atom_fields.insert(a, fid);
                let mut s = s.borrow_mut();
                let i = s.tried.len();
                let fail = l.len() != 8 * n_limbs(fid) || s.retry.get(i).map_or(false, |n| *n > 0);
                if fail {
                    if s.parsed.len() > 20 {
                        return unsup("no candidate after many messages");
                    }
                    if let Some(n) = s.retry.get_mut(i) {
                        *n = n.saturating_sub(1);
                    }
                    s.parsed.push((l, false, a));
                    return Ok(Some(adt(dt, 1, vec![V::Sym(name("error"), dt)])));
                }
                s.parsed.push((l, true, a));
                Ok(Some(adt(dt, 0, vec![V::F(Poly::atom(fid, a))])))
            }),
        );
        let s = sh.clone();
        on(
            &mut self.it,
            "Field::square_root",
            Rc::new(move |it, _, args, dt| {
                let p = it.deref_all(&args[0])?.poly()?;
                let mut s = s.borrow_mut();
                s.tried.push(p.clone());
                if s.tried.len() <= s.nonsq {
                    return Ok(Some(it.none(dt)));
                }
                let k = it.vkey(&V::F(p.clone()));
                let a = app("root", vec![k]);
                set_rule(a, 2, p.clone());
                it.atom_fields.insert(a, p.fid);
                Ok(Some(it.some(dt, V::F(Poly::atom(p.fid, a)))))
            }),
        );
        let s = sh.clone();
        on(
            &mut self.it,
            "rescue::rescue_sponge",
            Rc::new(move |it, inst, args, _| {
                let Some(fid) = inst.args.types().find_map(|t| it.field_ty(t)) else { return unsup("field of rescue_sponge") };
                let l = it.seq_items(&args[0])?.to_vec();
                let k = it.vkey(&seq(l.clone()));
                let n = args[1].usz()?;
                let sec = it.vkey(&args[2]);
                let mut s = s.borrow_mut();
                s.msgs.push(l);
                s.sec.push(sec);
                let mut out = vec![];
                for i in 0..n {
                    let a = app("sponge", vec![k, intern(Term::Int(i as u128))]);
                    it.atom_fields.insert(a, fid);
                    out.push(V::F(Poly::atom(fid, a)));
                }
                Ok(Some(seq(out)))
            }),
        );
        self.it.reset();
        let r = f(self, &sh);
        self.it.skip_model.clear();
        self.it.hooks = hooks;
        self.it.reset();
        r
    }
    /// what each path returns for a script of failures: (x, y), branch conditions, and the record of the hash calls
    fn htc_run(&mut self, sh: &Sh<'tcx>, start: &Script<'tcx>, f: &dyn Fn(&mut Self) -> R<V<'tcx>>) -> R<Vec<(Vec<TermId>, R<Option<(Poly, Poly)>>, Script<'tcx>)>> {
        let recs: RefCell<Vec<Script<'tcx>>> = Default::default();
        let ps = self.paths(40, |s| {
            *sh.borrow_mut() = start.clone();
            let r = f(s);
            recs.borrow_mut().push(sh.borrow().clone());
            let v = r?;
            let r = v.field(2)?.int()?;
            Ok(if r != 0 { None } else { Some((v.field(0)?.poly()?, v.field(1)?.poly()?)) })
        })?;
        Ok(ps.into_iter().zip(recs.into_inner()).map(|(p, s)| (p.conds.iter().map(|c| c.0).collect(), p.r, s)).collect())
    }
    /// every message holds the whole seed at fixed places, and no two messages of a run are equal
    fn htc_messages(&mut self, msgs: &[Vec<V<'tcx>>], seed: &[TermId], known: &mut Option<Vec<Vec<usize>>>) -> R<Option<String>> {
        let mut keyed = vec![];
        for m in msgs {
            let mut l = vec![];
            for v in m {
                let v = self.it.deref_all(v)?;
                l.push(self.it.vkey(&v));
            }
            keyed.push(l);
        }
        for l in &keyed {
            let at: Vec<Vec<usize>> = seed.iter().map(|s| (0..l.len()).filter(|i| l[*i] == *s).collect()).collect();
            if let Some(i) = at.iter().position(|a| a.is_empty()) {
                return Ok(Some(format!("the message hashed lacks part {} of the seed", i)));
            }
            let all: BTreeSet<TermId> = seed.iter().cloned().collect();
            if l.iter().any(|t| !all.contains(t) && !self.constant(*t)) {
                return unsup(format!("a message part {}", l.iter().filter(|t| !all.contains(t) && !self.constant(**t)).map(|t| show(*t)).next().unwrap_or_default()));
            }
            match known {
                None => *known = Some(at),
                Some(k) if *k != at => return unsup("the seed is at different places of the messages"),
                _ => {}
            }
        }
        for i in 0..keyed.len() {
            for j in 0..i {
                if keyed[i] == keyed[j] {
                    return Ok(Some(format!("messages {} and {} are the same", j, i)));
                }
            }
        }
        Ok(None)
    }
    fn constant(&self, t: TermId) -> bool {
        match term(t) {
            Term::Int(_) => true,
            Term::P(p) => p.as_const().is_some(),
            _ => false,
        }
    }
    pub fn check_htc(&mut self) -> R<()> {
        let bd = self.find_fn("hash_to_curve::blake_hash_base_field_to_curve")?;
        let rd = self.find_fn("hash_to_curve::hash_base_field_to_curve")?;
        let wr = [("blake_hash_usize_to_curve", true), ("hash_usize_to_curve", false), ("hash_u32_to_curve", false)];
        let mut wd = vec![];
        for (w, b) in wr {
            wd.push((w, b, self.find_fn(&format!("hash_to_curve::{}", w))?));
        }
        let scripts: Vec<(Vec<usize>, usize)> = vec![(vec![0], 0), (vec![1], 0), (vec![3], 0), (vec![0, 0], 1), (vec![1, 2], 1), (vec![2, 0, 1], 2), (vec![0, 0, 0, 0], 3), (vec![1, 1, 1, 1, 1], 4)];
        for c in self.all_curves()? {
            let bf = self.base(c)?;
            let Some(fid) = self.it.field_ty(bf) else { continue };
            let h = self.it.head(c);
            let ga = self.tcx.mk_args(&[c.into()]);
            let (a, b) = (Poly::constant(fid, self.fconst(c, "A")?), Poly::constant(fid, self.fconst(c, "B")?));
            let bits = self.it.assoc_const_of(bf, "BITS")?.usz()?;
            let x = self.atoms_named(fid, "seed", 1)[0].clone();
            let sec = V::Int(123);
            for (blake, d, k) in [(true, bd, "blake"), (false, rd, "rescue")] {
                let site = self.site(d);
                let key = format!("{} {}", h, k);
                let op = if blake { "blake" } else { "sponge" };
                let call = {
                    let (x, sec) = (x.clone(), sec.clone());
                    move |s: &mut Self| s.call(d, ga, if blake { vec![V::F(x.clone())] } else { vec![V::F(x.clone()), sec.clone()] })
                };
                let (k2, s2) = (key.clone(), site.clone());
                let (a, b, x, sec, scripts) = (a.clone(), b.clone(), x.clone(), sec.clone(), scripts.clone());
                self.unit(&key, &site, move |s| {
                    let (key, site) = (k2.clone(), s2.clone());
                    s.htc_scope(|s, sh| {
                        let seed: Vec<TermId> = if blake {
                            let m = s.it.bits_of(&x, 8, "byte");
                            m.iter().map(|v| s.it.vkey(v)).collect()
                        } else {
                            vec![s.it.vkey(&V::F(x.clone()))]
                        };
                        let (mut curve, mut msg, mut sign, mut range) = (None, None, None, None);
                        let mut places = None;
                        let mut open: Option<String> = None;
                        for (retry, nonsq) in &scripts {
                            if !blake && retry.iter().any(|r| *r > 0) {
                                continue;
                            }
                            let start = Script { retry: retry.clone(), nonsq: *nonsq, ..Default::default() };
                            let ps = s.htc_run(sh, &start, &call)?;
                            let who = format!("when {} candidates are not squares (unparsable hashes: {:?})", nonsq, retry);
                            let mut ys = vec![];
                            for (conds, r, rec) in ps {
                                let r = match r {
                                    Err(Stop::Panic(m)) => {
                                        curve = Some(format!("{} it panics: {}", who, m));
                                        continue;
                                    }
                                    r => r?,
                                };
                                let Some((px, py)) = r else {
                                    curve = Some(format!("{} the point at infinity is returned", who));
                                    continue;
                                };
                                let last = rec.parsed.iter().rev().find(|p| p.1);
                                let want = if blake {
                                    let Some(l) = last else { return unsup("no parsed candidate") };
                                    Poly::atom(fid, l.2)
                                } else {
                                    let m = rec.msgs.last().cloned().unwrap_or_default();
                                    let k = s.it.vkey(&seq(m));
                                    Poly::atom(fid, app("sponge", vec![k, intern(Term::Int(0))]))
                                };
                                if !py.mul(&py).sub(&px.pow(3).add(&a.mul(&px)).add(&b)).is_zero() {
                                    curve = Some(format!("{} the point ({}, {}) is not on the curve", who, px.show(), py.show()));
                                }
                                let got = px.as_atom().map(|t| outs(t, op)).unwrap_or_default();
                                if px.as_atom().is_none() || got.is_empty() {
                                    curve = Some(format!("{} x is {}, not a hash", who, px.show()));
                                    continue;
                                }
                                if !px.sub(&want).is_zero() || rec.tried.len() != nonsq + 1 {
                                    curve = Some(format!("{} x is not the first candidate with a root (candidate {} of {} tried)", who, px.show(), rec.tried.len()));
                                }
                                if let Some(m) = s.htc_messages(&rec.msgs, &seed, &mut places)? {
                                    msg = Some(format!("{} {}", who, m));
                                }
                                if !blake && rec.sec.iter().any(|t| *t != s.it.vkey(&sec)) {
                                    msg = Some("the sponge runs with another security level".into());
                                }
                                let conds: BTreeSet<(TermId, u128)> = conds.iter().flat_map(|c| outs(*c, op)).collect();
                                if let Some(o) = conds.intersection(&got).next() {
                                    sign = Some(format!("{} the root is chosen by part {} of the hash, which x uses", who, o.1));
                                }
                                if conds.is_empty() {
                                    sign = Some(format!("{} the root does not depend on the hash", who));
                                }
                                ys.push((px, py));
                                if blake {
                                    // bytes of x: distinct outputs of the last message
                                    let l = &last.unwrap().0;
                                    let mk = s.it.vkey(&seq(rec.msgs.last().cloned().unwrap_or_default()));
                                    let mut used: BTreeMap<u128, usize> = BTreeMap::new();
                                    for (i, v) in l.iter().enumerate() {
                                        let t = s.it.vkey(v);
                                        let o = outs(t, op);
                                        if o.len() != 1 {
                                            range = Some(format!("byte {} of x is {}", i, show(t)));
                                            continue;
                                        }
                                        let (m, pos) = o.into_iter().next().unwrap();
                                        if m != mk {
                                            range = Some(format!("{} byte {} of x comes from an earlier message", who, i));
                                        } else if let Some(j) = used.insert(pos, i) {
                                            range = Some(format!("bytes {} and {} of x are from the same hash byte", j, i));
                                        } else if t != app("blake", vec![m, intern(Term::Int(pos))]) && i + 1 < l.len() {
                                            open = Some(format!("byte {} of x is {}", i, show(t)));
                                        }
                                    }
                                }
                            }
                            if ys.len() == 2 {
                                if !ys[0].0.sub(&ys[1].0).is_zero() || !ys[0].1.add(&ys[1].1).is_zero() {
                                    sign = Some(format!("{} the two branches do not return opposite points", who));
                                }
                            } else if ys.iter().any(|y| !y.1.sub(&ys[0].1).is_zero()) {
                                open = Some(format!("{} paths", ys.len()));
                            } else if !ys.is_empty() {
                                sign = Some(format!("{} only one of the two roots is ever returned", who));
                            }
                        }
                        if blake && range.is_none() {
                            // the values the top byte takes, and how often each root is taken
                            let n = 8 * n_limbs(fid);
                            let mut cnt: HashMap<u128, usize> = HashMap::new();
                            for v in 0..256u128 {
                                let start = Script { retry: vec![0], fixed: [(n - 1, v)].into_iter().collect(), ..Default::default() };
                                let ps = s.htc_run(sh, &start, &call)?;
                                for (_, _, rec) in ps.iter().take(1) {
                                    match rec.parsed.last().and_then(|l| l.0.last()).map(|v| v.int()) {
                                        Some(Ok(b)) => *cnt.entry(b).or_default() += 1,
                                        _ => return unsup("top byte of x"),
                                    }
                                }
                            }
                            let top = (field_p(fid) - 1u32) >> (8 * (n - 1));
                            let top = top.to_u128().unwrap();
                            let free = bits as i64 - 8 * (n as i64 - 1);
                            if let Some(m) = (0..=top).find(|v| !cnt.contains_key(v)) {
                                range = Some(format!("no hash gives a candidate with top byte {} ({} bits are used)", m, free));
                            } else if (0..=top).any(|v| cnt[&v] != cnt[&0]) {
                                range = Some("top bytes are not equally frequent".into());
                            }
                        }
                        if let (Some(o), true) = (open, curve.is_none() && msg.is_none() && sign.is_none() && range.is_none()) {
                            return unsup(o);
                        }
                        s.check(&format!("{} point", key), &site, "the point returned is on the curve, with the first hashed x for which there is one", curve.is_none(), || curve.clone().unwrap_or_default());
                        s.check(&format!("{} messages", key), &site, "every message hashed holds the whole seed, and no two attempts hash the same message", msg.is_none(), || msg.clone().unwrap_or_default());
                        s.check(&format!("{} root", key), &site, "which of the two roots is returned is chosen by hash bits that x does not use", sign.is_none(), || sign.clone().unwrap_or_default());
                        if blake {
                            s.check(&format!("{} range", key), &site, "the hash bytes of x reach every element of the field", range.is_none(), || range.clone().unwrap_or_default());
                        }
                        Ok(())
                    })
                });
            }
            for (w, blake, d) in &wd {
                let (blake, d) = (*blake, *d);
                let site = self.site(d);
                let key = format!("{} {}", h, w);
                let (k2, s2) = (key.clone(), site.clone());
                let w = w.to_string();
                self.unit(&key, &site, move |s| {
                    let bad = s.htc_scope(|s, sh| {
                        let mut bad = None;
                        for n in [0u64, 1, 255, 256, 65537, u32::MAX as u64, 1 << 32, (1 << 40) + 3, u64::MAX] {
                            if w.contains("u32") && n > u32::MAX as u64 {
                                continue;
                            }
                            let mut res = vec![];
                            for direct in [true, false] {
                                let mut args = vec![if direct { V::F(Poly::constant(fid, BigUint::from(n))) } else { V::Int(n as u128) }];
                                if !blake {
                                    args.push(V::Int(123));
                                }
                                let f = if !direct {
                                    d
                                } else if blake {
                                    bd
                                } else {
                                    rd
                                };
                                let start = Script { retry: vec![0, 0], nonsq: 1, ..Default::default() };
                                let ps = s.htc_run(sh, &start, &|s| s.call(f, ga, args.clone()))?;
                                let mut l = vec![];
                                for (_, r, rec) in ps {
                                    l.push(match r {
                                        Ok(Some((x, y))) => format!("{} {} {:?}", x.show(), y.show(), rec.sec),
                                        Err(Stop::Panic(m)) => format!("panic {}", m),
                                        Ok(None) => "infinity".into(),
                                        Err(e) => return Err(e),
                                    });
                                }
                                res.push(l);
                            }
                            if res[0] != res[1] {
                                bad = Some(format!("the point for {} is not that of the field element {}", n, n));
                            }
                        }
                        Ok(bad)
                    })?;
                    s.check(&k2, &s2, "an integer is hashed as the field element of that value", bad.is_none(), || bad.clone().unwrap_or_default());
                    Ok(())
                });
            }
        }
        Ok(())
    }
}
