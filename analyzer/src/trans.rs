//! The Fiat-Shamir sponge and the transcripts built on it, over an uninterpreted permutation.
use crate::base::*;
use crate::gadgets::Gad;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use rustc_middle::ty::Ty;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

/// one step of a transcript: observe a message, or draw a challenge
#[derive(Clone, Copy, PartialEq)]
pub enum Step {
    See(usize),
    Draw,
}

pub fn perm_atom<'tcx>(it: &mut Interp<'tcx>, i: usize, st: &[Poly], fid: FieldId) -> Poly {
    let mut k = vec![intern(Term::Int(i as u128))];
    for p in st {
        k.push(it.vkey(&V::F(p.clone())));
    }
    let t = app("perm", k);
    it.atom_fields.insert(t, fid);
    Poly::atom(fid, t)
}

impl<'tcx> Ctx<'tcx> {
    /// the permutation is an uninterpreted bijection of the state
    pub fn hook_perm(&mut self) {
        self.it.hooks.insert(
            "rescue::rescue_permutation".into(),
            Rc::new(|it, i, args, _| {
                let t = i.args.type_at(0);
                let Some(fid) = it.field_ty(t) else { return unsup("permutation field") };
                let st: Vec<Poly> = it.seq_items(&args[0])?.iter().map(|x| x.poly()).collect::<R<_>>()?;
                Ok(Some(fseq(&(0..st.len()).map(|k| perm_atom(it, k, &st, fid)).collect::<Vec<_>>())))
            }),
        );
    }
    /// the challenges drawn, as terms over the messages
    pub fn native_transcript(&mut self, t: Ty<'tcx>, steps: &[Step], msgs: &[Poly]) -> R<Vec<Poly>> {
        let ga = self.tcx.mk_args(&[t.into()]);
        let new = self.method("Challenger", "new")?;
        let obs = self.method("Challenger", "observe_element")?;
        let get = self.method("Challenger", "get_challenge")?;
        let c = self.call(new, ga, vec![V::Int(128)])?;
        let c = ptr_to(c);
        let mut out = vec![];
        for s in steps {
            match s {
                Step::See(i) => {
                    self.call(obs, ga, vec![c.clone(), V::F(msgs[*i].clone())])?;
                }
                Step::Draw => out.push(self.call(get, ga, vec![c.clone()])?.poly()?),
            }
        }
        Ok(out)
    }
    fn recursive_transcript(&mut self, g: &Gad<'tcx>, steps: &[Step], msgs: &[Poly]) -> R<Vec<Option<Poly>>> {
        let b = self.new_builder(g.c)?;
        let rec: Rc<RefCell<Vec<(Vec<V<'tcx>>, Vec<V<'tcx>>)>>> = Rc::new(RefCell::new(vec![]));
        let (r2, c) = (rec.clone(), g.c);
        let avt = self.method("CircuitBuilder", "add_virtual_target")?;
        let ca = self.tcx.mk_args(&[c.into()]);
        self.it.hooks.insert(
            "CircuitBuilder::rescue_permutation".into(),
            Rc::new(move |it, _, args, dt| {
                let ins = it.seq_items(&args[1])?.to_vec();
                let tt = match dt.kind() {
                    rustc_middle::ty::Adt(_, a) if a.len() > 0 => a.type_at(0),
                    _ => dt,
                };
                let mut outs = vec![];
                for _ in 0..ins.len() {
                    outs.push(it.call_def(avt, ca, vec![args[0].clone()], tt, false)?);
                }
                r2.borrow_mut().push((ins, outs.clone()));
                Ok(Some(seq(outs)))
            }),
        );
        let sf = self.scalar(c)?;
        let new = self.method("RecursiveChallenger", "new")?;
        let obs = self.method("RecursiveChallenger", "observe_element")?;
        let get = self.method("RecursiveChallenger", "get_challenge")?;
        let na = self.tcx.mk_args(&[sf.into(), c.into()]);
        let oa = self.tcx.mk_args(&[sf.into()]);
        let ch = self.call(new, na, vec![b.clone()])?;
        let ch = ptr_to(ch);
        let mut known = vec![];
        let mut tm = vec![];
        for m in msgs {
            let t = self.target(&b, c)?;
            known.push((t.clone(), m.clone()));
            tm.push(t);
        }
        let mut outs = vec![];
        for s in steps {
            match s {
                Step::See(i) => {
                    self.call(obs, oa, vec![ch.clone(), tm[*i].clone()])?;
                }
                Step::Draw => outs.push(self.call(get, na, vec![ch.clone(), b.clone()])?),
            }
        }
        self.it.hooks.remove("CircuitBuilder::rescue_permutation");
        let mut cc = self.circ(&b, c, g.inner)?;
        let perms = rec.borrow().clone();
        let mut done = vec![false; perms.len()];
        let mut sol;
        loop {
            sol = self.solve(&mut cc, &known)?;
            let mut progress = false;
            for (k, (ins, os)) in perms.iter().enumerate() {
                if done[k] {
                    continue;
                }
                let mut st = vec![];
                for t in ins {
                    let kk = self.key(t)?;
                    match sol.val.get(&cc.find(kk)) {
                        Some(p) => st.push(p.clone()),
                        None => break,
                    }
                }
                if st.len() == ins.len() {
                    for (i, o) in os.iter().enumerate() {
                        known.push((o.clone(), perm_atom(&mut self.it, i, &st, g.fid)));
                    }
                    done[k] = true;
                    progress = true;
                }
            }
            if !progress {
                break;
            }
        }
        let mut r = vec![];
        for o in &outs {
            let k = self.key(o)?;
            r.push(sol.val.get(&cc.find(k)).cloned());
        }
        Ok(r)
    }

    pub fn check_challenger(&mut self) -> R<()> {
        let saved = self.it.hooks.clone();
        self.hook_perm();
        let r = self.check_challenger_();
        self.it.hooks = saved;
        r
    }
    fn check_challenger_(&mut self) -> R<()> {
        let w = self.const_usize("RESCUE_SPONGE_WIDTH")?;
        let rate = self.const_usize("RESCUE_SPONGE_RATE")?;
        let site = {
            let d = self.method("Challenger", "get_challenge")?;
            self.site(d)
        };
        self.check("sponge capacity", &site, "the sponge keeps at least one state element out of the rate", rate < w && rate > 0, || format!("rate {} of {}", rate, w));
        // every way of interleaving observations and draws, in rounds (observed, drawn)
        let mut plans: Vec<Vec<(usize, usize)>> = vec![];
        let (mi, mo) = (rate * 2 + 1, rate * 2 + 2);
        for a in 0..=mi {
            for b in 1..=mo {
                plans.push(vec![(a, b)]);
            }
        }
        for a in 0..=rate + 1 {
            for b in 1..=rate + 2 {
                for c in 1..=rate + 1 {
                    for d in 1..=rate + 1 {
                        plans.push(vec![(a, b), (c, d)]);
                    }
                }
            }
        }
        for a in [1, rate, rate + 1] {
            for b in 1..=rate + 1 {
                for c in 1..=2 {
                    for d in [1, rate, rate + 1] {
                        for e in [1, 2, rate] {
                            plans.push(vec![(a, b), (c, d), (e, 2)]);
                        }
                    }
                }
            }
        }
        let steps_of = |p: &[(usize, usize)]| {
            let mut v = vec![];
            let mut n = 0;
            for (i, o) in p {
                for _ in 0..*i {
                    v.push(Step::See(n));
                    n += 1;
                }
                for _ in 0..*o {
                    v.push(Step::Draw);
                }
            }
            (v, n)
        };
        let mut pairs = vec![];
        for (c, inner) in self.curve_pairs()? {
            let g = self.gad(c, inner)?;
            pairs.push(g);
        }
        for g in &pairs {
            let t = self.scalar(g.c)?;
            let fid = g.fid;
            let fnm = self.it.head(t);
            for (pi, p) in plans.iter().enumerate() {
                let (steps, n) = steps_of(p);
                let msgs = fvec(fid, "m", n);
                let key = format!("{} transcript {:?}", fnm, p);
                let (k2, s2) = (key.clone(), site.clone());
                self.unit(&key, &site, |s| {
                    let ch = s.native_transcript(t, &steps, &msgs)?;
                    let mut seen: HashMap<Poly, usize> = HashMap::new();
                    for (i, x) in ch.iter().enumerate() {
                        if let Some(j) = seen.insert(x.clone(), i) {
                            s.check(&format!("{} distinct", k2), &s2, "no two draws of a transcript are the same function of the transcript", false, || format!("draws {} and {} are identical", j, i));
                            return Ok(());
                        }
                    }
                    s.check(&format!("{} distinct", k2), &s2, "no two draws of a transcript are the same function of the transcript", true, String::new);
                    // dependence, rate and capacity
                    let (mut upto, mut d) = (0, 0);
                    let (mut miss, mut cap, mut absorb) = (None, None, None);
                    for st in &steps {
                        match st {
                            Step::See(i) => upto = i + 1,
                            Step::Draw => {
                                let mut at = BTreeSet::new();
                                ch[d].deep_atoms(&mut at);
                                for (i, m) in msgs[..upto].iter().enumerate() {
                                    if !at.contains(&m.as_atom().unwrap()) {
                                        miss.get_or_insert((d, i));
                                    }
                                }
                                let mut ok = false;
                                if let Some(Term::App(op, a)) = ch[d].as_atom().map(term) {
                                    if op == "perm" {
                                        if let Term::Int(i) = term(a[0]) {
                                            ok = (i as usize) < rate;
                                        }
                                    }
                                }
                                if !ok {
                                    cap.get_or_insert((d, ch[d].show()));
                                }
                                for x in &at {
                                    if let Term::App(op, a) = term(*x) {
                                        if op == "perm" {
                                            for (j, y) in a.iter().enumerate().skip(1 + rate) {
                                                let fine = match term(*y) {
                                                    Term::App(o, b) => o == "perm" && term(b[0]) == Term::Int(j as u128 - 1),
                                                    Term::P(p) => p.as_const().is_some(),
                                                    _ => false,
                                                };
                                                if !fine {
                                                    absorb.get_or_insert(show(*y));
                                                }
                                            }
                                        }
                                    }
                                }
                                d += 1;
                            }
                        }
                    }
                    s.check(&format!("{} binds", k2), &s2, "every draw depends on every message observed before it", miss.is_none(), || format!("draw {} does not depend on message {}", miss.unwrap().0, miss.unwrap().1));
                    s.check(&format!("{} squeezes the rate", k2), &s2, "draws are rate elements of a permuted state", cap.is_none(), || {
                        let c = cap.clone().unwrap();
                        format!("draw {} is {}", c.0, c.1)
                    });
                    s.check(&format!("{} absorbs into the rate", k2), &s2, "messages are added to the rate part only", absorb.is_none(), || format!("capacity element {}", absorb.clone().unwrap()));
                    // order and value sensitivity: exchanging two messages changes every later draw
                    let mut bad = None;
                    for i in 0..n.saturating_sub(1) {
                        let mut m2 = msgs.clone();
                        m2.swap(i, i + 1);
                        let c2 = s.native_transcript(t, &steps, &m2)?;
                        let mut d = 0;
                        let mut upto = 0;
                        for st in &steps {
                            match st {
                                Step::See(k) => upto = k + 1,
                                Step::Draw => {
                                    if upto > i + 1 && c2[d] == ch[d] {
                                        bad.get_or_insert((d, i));
                                    }
                                    d += 1;
                                }
                            }
                        }
                    }
                    s.check(&format!("{} ordered", k2), &s2, "exchanging two messages changes every later draw", bad.is_none(), || format!("draw {} is unchanged when messages {} and {} are exchanged", bad.unwrap().0, bad.unwrap().1, bad.unwrap().1 + 1));
                    if pi % 3 == 0 {
                        let rc = s.recursive_transcript(g, &steps, &msgs)?;
                        let bad = rc.iter().zip(&ch).position(|(a, b)| a.as_ref().map(|a| a.sub(b).is_zero()) != Some(true));
                        s.check(&format!("{} recursive", k2), &s2, "the in-circuit challenger is forced to the draws of the native one", bad.is_none() && rc.len() == ch.len(), || {
                            format!("draw {:?}: in circuit {:?}, native {:?}", bad, bad.and_then(|i| rc[i].clone()).map(|x| x.show()), bad.map(|i| ch[i].show()))
                        });
                        // particular messages are not treated specially
                        let short = p.iter().all(|(_, o)| *o <= 2) && n <= rate * 2 + 1;
                        let mut pats: Vec<(String, Vec<Poly>)> = vec![];
                        if short {
                            for v in [0u32, 1] {
                                let v = Poly::constant(fid, v.into());
                                for i in 0..n {
                                    let mut m = msgs.clone();
                                    m[i] = v.clone();
                                    pats.push((format!("message {} = {}", i, v.show()), m));
                                }
                                pats.push((format!("all messages = {}", v.show()), vec![v; n]));
                            }
                            if n > 1 {
                                pats.push(("all messages equal".into(), vec![msgs[0].clone(); n]));
                            }
                        }
                        for (w, m) in pats {
                            let a = s.native_transcript(t, &steps, &m)?;
                            let r = s.recursive_transcript(g, &steps, &m)?;
                            let same = a.len() == r.len() && a.iter().zip(&r).all(|(a, r)| r.as_ref() == Some(a));
                            s.check(&format!("{} recursive, {}", k2, w), &s2, "the in-circuit challenger is forced to the draws of the native one", same, || "different draws".into());
                        }
                    }
                    Ok(())
                });
            }
        }
        // the convenience methods draw and observe in order
        let g = &pairs[0];
        let t = self.scalar(g.c)?;
        let fid = g.fid;
        let s2 = site.clone();
        self.unit("drawing several", &site, |s| {
            let ga = s.tcx.mk_args(&[t.into()]);
            let new = s.method("Challenger", "new")?;
            let obs = s.method("Challenger", "observe_elements")?;
            let msgs = fvec(fid, "m", rate + 2);
            let steps: Vec<Step> = (0..msgs.len()).map(Step::See).chain((0..7).map(|_| Step::Draw)).collect();
            let want = s.native_transcript(t, &steps, &msgs)?;
            for (m, k) in [("get_2_challenges", 2usize), ("get_3_challenges", 3), ("get_n_challenges", 7)] {
                let d = s.method("Challenger", m)?;
                let c = s.call(new, ga, vec![V::Int(128)])?;
                let c = ptr_to(c);
                s.call(obs, ga, vec![c.clone(), fref(&msgs)])?;
                let mut a = vec![c];
                if m == "get_n_challenges" {
                    a.push(V::Int(k as u128));
                }
                let r = s.call(d, ga, a)?;
                let got: Vec<Poly> = if k == 7 {
                    s.it.seq_items(&r)?.iter().map(|x| x.poly()).collect::<R<_>>()?
                } else {
                    (0..k).map(|i| r.field(i)?.poly()).collect::<R<_>>()?
                };
                let st = s.site(d);
                s.check(&format!("{} in order", m), &st, "drawing several challenges is drawing them one after another", got[..] == want[..k], || "different draws".into());
            }
            // points: both coordinates, in order
            let (c, _) = s.curve_pairs()?[0];
            let k = s.curve_cx(c)?;
            let bf = s.base(c)?;
            let ga = s.tcx.mk_args(&[bf.into()]);
            let bfid = k.fid;
            let p = s.pt(&k, "p");
            let q = s.pt(&k, "q");
            let msgs = vec![p.x.clone(), p.y.clone(), q.x.clone(), q.y.clone()];
            let steps: Vec<Step> = (0..4).map(Step::See).chain([Step::Draw]).collect();
            let want = s.native_transcript(bf, &steps, &msgs)?;
            let _ = bfid;
            let (pv, qv) = (s.aff_v(&k, &p)?, s.aff_v(&k, &q)?);
            let get = s.method("Challenger", "get_challenge")?;
            for m in ["observe_affine_point", "observe_affine_points"] {
                let d = s.method("Challenger", m)?;
                let pa = s.tcx.mk_args(&[bf.into(), c.into()]);
                let ch = s.call(new, ga, vec![V::Int(128)])?;
                let ch = ptr_to(ch);
                if m.ends_with('s') {
                    s.call(d, pa, vec![ch.clone(), sref(vec![pv.clone(), qv.clone()])])?;
                } else {
                    s.call(d, pa, vec![ch.clone(), pv.clone()])?;
                    s.call(d, pa, vec![ch.clone(), qv.clone()])?;
                }
                let r = s.call(get, ga, vec![ch])?.poly()?;
                let st = s.site(d);
                s.check(&format!("{} observes the coordinates", m), &st, "observing points is observing x and then y of each, in order", r == want[0], || "a different transcript".into());
            }
            let _ = &s2;
            Ok(())
        });
        Ok(())
    }
}
