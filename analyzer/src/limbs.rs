//! Field elements as Montgomery limbs of machine words: what the limb arithmetic of every field type computes,
//! compared with arithmetic modulo its order.
use crate::base::*;
use crate::curve::Path;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use crate::zdom::*;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use rustc_middle::ty::{self, Ty};
use std::collections::HashMap;

type Pt = HashMap<String, BigInt>;

struct Fd<'tcx> {
    t: Ty<'tcx>,
    name: String,
    p: BigInt,
    n: usize,
    r: BigInt,
}
/// what a path of an operation leaves: the words of the result
struct Out {
    words: Vec<ZP>,
}

fn modinv(a: &BigInt, p: &BigInt) -> BigInt {
    a.modpow(&(p - 2), p)
}
fn rng(seed: &mut u64) -> u64 {
    *seed ^= *seed << 13;
    *seed ^= *seed >> 7;
    *seed ^= *seed << 17;
    *seed
}
/// values at which limb arithmetic is most likely to go wrong
fn samples(p: &BigInt, n: usize, max: &BigInt) -> Vec<BigInt> {
    let one = BigInt::one();
    let mut v: Vec<BigInt> = vec![];
    for k in 0..4 {
        v.push(BigInt::from(k));
        v.push(p - k);
        v.push(p + k);
    }
    for k in [2u32, 3, 4] {
        for d in -1i32..=1 {
            v.push(p / k + d);
            v.push(p * 2 / k + d);
        }
    }
    for i in 1..=n {
        let b = &one << (64 * i);
        for d in -1i32..=1 {
            v.push(&b + d);
            v.push(p - &b + d);
        }
        // words of the order, with the others zero or full
        let lo = p.mod_floor(&b);
        let hi = p - &lo;
        v.push(lo.clone());
        v.push(hi.clone());
        v.push(&hi - 1);
        v.push(&hi + &b - 1);
        v.push(p + (&one << (64 * (i - 1))));
        v.push(p - (&one << (64 * (i - 1))));
        v.push((&one << (64 * i - 1)) - 1);
        v.push(&one << (64 * i - 1));
    }
    let mut s = 0x9e3779b97f4a7c15u64;
    for _ in 0..24 {
        let mut x = BigInt::zero();
        for _ in 0..n {
            x = (x << 64) + rng(&mut s);
        }
        v.push(x.mod_floor(&(max + 1)));
    }
    v.retain(|x| !x.is_negative() && x <= max);
    v.sort();
    v.dedup();
    v
}

impl<'tcx> Ctx<'tcx> {
    fn z_scope<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let hooks = self.it.hooks.clone();
        self.it.z.on = true;
        self.it.z.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(400));
        self.it.const_cache.clear();
        let r = f(self);
        self.it.z.on = false;
        self.it.const_cache.clear();
        self.it.hooks = hooks;
        self.it.reset();
        r
    }
    fn field_data(&mut self, t: Ty<'tcx>) -> R<Fd<'tcx>> {
        let Some(fid) = self.it.field_ty(t) else { return unsup("field type") };
        let n = n_limbs(fid);
        Ok(Fd { t, name: self.it.head(t), p: big(&field_p(fid)), n, r: BigInt::one() << (64 * n) })
    }
    /// a field element with these words
    fn limb_elem(&mut self, f: &Fd<'tcx>, x: &ZP) -> V<'tcx> {
        let l = self.it.z_limbs(x, f.n);
        adt(f.t, 0, vec![seq(l)])
    }
    fn words_of(&mut self, v: &V<'tcx>) -> R<Vec<ZP>> {
        let v = self.it.deref_all(v)?;
        let v = match &v {
            V::Adt(a) if a.f.len() == 1 => self.it.deref_all(&a.f[0].clone())?,
            _ => v,
        };
        let s = self.it.seq_items(&v)?;
        let mut out = vec![];
        for x in s.iter() {
            match self.it.z_get(x) {
                Some((p, _)) => out.push(p),
                None => return unsup("result is not made of words"),
            }
        }
        Ok(out)
    }
    fn congruent(&self, e: &ZP, p: &BigInt) -> bool {
        let z = &self.it.z;
        let e = z.norm(e);
        if e.divisible(p) {
            return true;
        }
        for b in [z.bound(&e), z.bound_elim(&e)] {
            if b.0 == b.1 && (&b.0 % p).is_zero() {
                return true;
            }
        }
        false
    }
    fn within(&self, words: &[ZP], lo: &BigInt, hi: &BigInt, bits: usize) -> bool {
        let z = &self.it.z;
        let d = weigh(words, bits);
        let mut b = z.bound(&d);
        let mut cs = vec![z.bound_elim(&d)];
        if bits == 64 {
            cs.push(self.it.z_limb_bound(words));
        } else if words.iter().any(|w| {
            let b = z.bound(w);
            b.0.is_negative() || b.1 >= BigInt::one() << bits
        }) {
            return false;
        }
        for c in cs {
            b = ((&b.0).max(&c.0).clone(), (&b.1).min(&c.1).clone());
        }
        b.0 >= *lo && b.1 <= *hi
    }
    fn pending_ok(&self) -> Result<(), String> {
        match self.it.z.pending.first() {
            None => Ok(()),
            Some((_, _, m, _)) => Err(m.clone()),
        }
    }
    /// every path of an operation on words; None for paths that cannot be taken
    fn z_paths<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<Path<T>>> {
        let mut v = self.paths(max, &mut f)?;
        v.retain(|p| !matches!(&p.r, Err(Stop::Unsupported(m)) if m.starts_with(DEAD)));
        Ok(v)
    }
    /// the operation computes `want(inputs)` modulo p, where an element's value is its words times scale
    fn limb_op(
        &mut self,
        key: &str,
        site: &str,
        f: &Fd<'tcx>,
        inputs: &[(&str, BigInt)],
        call: &dyn Fn(&mut Self, &[ZP]) -> R<V<'tcx>>,
        spec: &dyn Fn(&[ZP]) -> ZP,
        scale: &BigInt,
        bits: usize,
    ) -> R<()> {
        let count = 64 * f.n / bits;
        let p = f.p.clone();
        let hi: BigInt = &p - 1;
        let mut bad: Option<String> = None;
        let mut open: Option<String> = None;
        let mut pts: Option<Vec<Pt>> = None;
        let ps = self.z_paths(4000, |s| {
            let ins: Vec<ZP> = inputs.iter().map(|(n, h)| s.it.z.input(n, BigInt::zero(), h.clone())).collect();
            let r = call(s, &ins);
            if matches!(&r, Err(Stop::Unsupported(m)) if m.starts_with(DEAD)) || bad.is_some() {
                return r.map(|_| ());
            }
            let mut why = String::new();
            let mut dpoly: Option<(ZP, usize)> = None;
            match &r {
                Ok(v) => {
                    let w = s.words_of(v)?;
                    let d = weigh(&w, bits);
                    dpoly = Some((d.clone(), w.len()));
                    if bits == 64 {
                        let _ = s.it.z_view(&w);
                    }
                    let e = d.scale(scale).sub(&spec(&ins));
                    if w.len() != count {
                        why = format!("{} words", w.len());
                    } else if !s.congruent(&e, &p) {
                        let z = &s.it.z;
                        let b = z.bound_elim(&z.norm(&e));
                        why = format!("the value is not shown to be the expected one modulo the order: off by {} in {:?}", z.show(&z.norm(&e)), (&b.0 / &p, &b.1 / &p));
                    } else if !s.within(&w, &BigInt::zero(), &hi, bits) {
                        let z = &s.it.z;
                        why = format!("the value is not shown to be below the order: {:?} {:?}", z.bound(&d), z.bound_elim(&d));
                    } else if let Err(m) = s.pending_ok() {
                        why = m;
                    }
                }
                Err(Stop::Panic(m)) => why = format!("panics: {}", m),
                Err(Stop::Unsupported(m)) => return unsup(m.clone()),
            }
            if why.is_empty() {
                return Ok(());
            }
            // look for a point on this path at which the obligation fails
            if pts.is_none() {
                pts = Some(grid(&p, f.n, inputs));
            }
            for pt in pts.as_ref().unwrap() {
                let z = &s.it.z;
                let Some(v) = z.eval_atoms(pt) else { continue };
                for (q, exp, m, n) in &z.pending {
                    if z.holds(&v, *n) && z.eval(q, &v).is_one() != *exp {
                        bad = Some(format!("{} at {}", m, show_pt(pt)));
                        return Ok(());
                    }
                }
                if !z.holds(&v, z.asserted.len()) {
                    continue;
                }
                match &dpoly {
                    None => bad = Some(format!("{} at {}", why, show_pt(pt))),
                    Some((d, n)) => {
                        let got = z.eval(d, &v);
                        let iv: Vec<ZP> = inputs.iter().map(|(n, _)| ZP::int(pt[*n].clone())).collect();
                        let want = (spec(&iv).c * modinv(scale, &p)).mod_floor(&p);
                        if got != want || *n != count {
                            bad = Some(format!("gives {} instead of {} at {}", got, want, show_pt(pt)));
                        }
                    }
                }
                if bad.is_some() {
                    return Ok(());
                }
            }
            if open.is_none() {
                open = Some(why);
            }
            Ok(())
        })?;
        for q in ps {
            if let Err(Stop::Unsupported(m)) = q.r {
                open = Some(m);
            }
        }
        let rule = "every path computes the value required modulo the order, fully reduced, without overflow";
        match (bad, open) {
            (Some(m), _) => self.check(key, site, rule, false, || m),
            (None, Some(m)) => self.ob(key, site, rule, St::Undecided, m),
            _ => self.check(key, site, rule, true, String::new),
        }
        Ok(())
    }
    pub fn check_limbs(&mut self) -> R<()> {
        let mut fs = vec![];
        for t in self.all_fields()? {
            fs.push(self.field_data(t)?);
        }
        for f in &fs {
            self.limb_field(f)?;
        }
        for f in &fs {
            for g in &fs {
                self.limb_convert(f, g)?;
            }
        }
        Ok(())
    }
    fn lang_op(&self, n: &str) -> R<rustc_hir::def_id::DefId> {
        let l = self.tcx.lang_items();
        let t = match n {
            "add" => l.add_trait(),
            "sub" => l.sub_trait(),
            "mul" => l.mul_trait(),
            "neg" => l.neg_trait(),
            _ => l.eq_trait(),
        };
        match t.and_then(|t| self.tcx.associated_item_def_ids(t).iter().cloned().find(|d| self.tcx.opt_item_name(*d).map(|x| x.as_str() == n).unwrap_or(false))) {
            Some(d) => Ok(d),
            None => unsup(format!("operator {}", n)),
        }
    }
    fn limb_field(&mut self, f: &Fd<'tcx>) -> R<()> {
        let t = f.t;
        let p = f.p.clone();
        let m1: BigInt = &p - 1;
        let a = self.tcx.mk_args(&[t.into()]);
        let aa = self.tcx.mk_args(&[t.into(), t.into()]);
        for (op, arity) in [("add", 2), ("sub", 2), ("mul", 2), ("neg", 1), ("square", 1), ("double", 1), ("triple", 1), ("quadruple", 1)] {
            let (d, ga, refs) = match op {
                "add" | "sub" | "mul" => (self.lang_op(op)?, aa, false),
                "neg" => (self.lang_op(op)?, a, false),
                _ => (self.trait_item("Field", op)?, a, true),
            };
            let site = self.impl_site(d, ga);
            let key = format!("{} {}", f.name, op);
            let inputs: Vec<(&str, BigInt)> = ["a", "b"][..arity].iter().map(|n| (*n, m1.clone())).collect();
            let spec = |x: &[ZP]| match op {
                "add" => x[0].add(&x[1]),
                "sub" => x[0].sub(&x[1]),
                "mul" => x[0].mul(&x[1]),
                "neg" => x[0].neg(),
                "square" => x[0].mul(&x[0]),
                "double" => x[0].scale(&2.into()),
                "triple" => x[0].scale(&3.into()),
                "quadruple" => x[0].scale(&4.into()),
                _ => x[0].mul(&x[0]).mul(&x[0]),
            };
            let scale = match op {
                "mul" | "square" => f.r.clone(),
                "cube" => &f.r * &f.r,
                _ => BigInt::one(),
            };
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    s.limb_op(
                        &key,
                        &site,
                        f,
                        &inputs,
                        &|s, x| {
                            let mut args: Vec<V<'tcx>> = vec![];
                            for y in x {
                                let e = s.limb_elem(f, y);
                                args.push(if refs { ptr_to(e) } else { e });
                            }
                            s.call(d, ga, args)
                        },
                        &spec,
                        &scale,
                        64,
                    )
                })
            });
        }
        self.limb_inverse(f)?;
        self.limb_conversions(f)?;
        self.limb_predicates(f)?;
        self.limb_lengths(f)?;
        self.limb_random(f)?;
        self.limb_num_bits(f)
    }
    /// an element of one field as an element of another
    fn limb_convert(&mut self, f: &Fd<'tcx>, g: &Fd<'tcx>) -> R<()> {
        let d = self.trait_item("Field", "try_convert")?;
        let ga = self.tcx.mk_args(&[f.t.into(), g.t.into()]);
        let site = self.impl_site(d, ga);
        let key = format!("{} try_convert to {}", f.name, g.name);
        self.unit(&key.clone(), &site.clone(), |s| {
            s.z_scope(|s| {
                let e = |s: &mut Self, x: &ZP| -> R<V<'tcx>> {
                    let e = s.limb_elem(f, x);
                    let v = s.call(d, ga, vec![ptr_to(e)])?;
                    s.it.deref_all(&v)
                };
                let via = s.through_words(f, &|s, e| s.call(d, ga, vec![e]).map(|_| ()))?;
                let used = s.word_functions(g);
                s.paths(100, |s| {
                    let x = s.it.z.input("a", BigInt::zero(), &f.p - 1);
                    e(s, &x)
                })?;
                if !via || used.get() != 3 {
                    return unsup("conversion other than through canonical words");
                }
                let stash: std::cell::RefCell<Option<ZP>> = Default::default();
                s.decision_(
                    Some((&stash, &|x| x[0].clone())),
                    &key,
                    &site,
                    "conversion succeeds exactly on integers below the other order, and keeps the integer",
                    f,
                    &[("a", &f.p - 1)],
                    &|s, x| {
                        let v = e(s, &x[0])?;
                        let V::Adt(a) = &v else { return unsup("result of conversion") };
                        if a.variant == 1 {
                            return Ok(0);
                        }
                        let w = s.words_of(&a.f[0].clone())?;
                        *stash.borrow_mut() = Some(ZP::weighted(&w));
                        let e = ZP::weighted(&w).sub(&x[0]);
                        let ok = w.len() == g.n && s.congruent(&e, &g.p) && s.within(&w, &BigInt::zero(), &(&g.p - 1), 64);
                        Ok(if ok { 1 } else { 2 })
                    },
                    &|x| (x[0] < g.p) as i64,
                    &|_, x, r| {
                        let d = x[0].sub(&ZP::int(g.p.clone()));
                        Some(if r == 1 { (d, None, Some(BigInt::from(-1))) } else { (d, Some(BigInt::zero()), None) })
                    },
                )
            })
        });
        Ok(())
    }
    fn limb_num_bits(&mut self, f: &Fd<'tcx>) -> R<()> {
        let d = self.trait_item("Field", "num_bits")?;
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let site = self.impl_site(d, ga);
        let key = format!("{} num_bits", f.name);
        self.unit(&key.clone(), &site.clone(), |s| {
            s.z_scope(|s| {
                if !s.through_words(f, &|s, e| s.call(d, ga, vec![e]).map(|_| ()))? {
                    return unsup("not through canonical words");
                }
                s.decision(
                    &key,
                    &site,
                    "the number of bits of an element is that of its canonical integer",
                    f,
                    &[("a", &f.p - 1)],
                    &|s, x| {
                        let e = s.limb_elem(f, &x[0]);
                        let v = s.call(d, ga, vec![ptr_to(e)])?;
                        let k = v.int()? as usize;
                        let (lo, hi) = (if k == 0 { BigInt::zero() } else { BigInt::one() << (k - 1) }, (BigInt::one() << k) - 1);
                        let w = s.it.z_limbs(&x[0], f.n);
                        let w: Vec<ZP> = w.iter().filter_map(|w| s.it.z_get(w).map(|p| p.0)).collect();
                        Ok(if w.len() == f.n && s.within(&w, &lo, &hi, 64) { 1 } else { 10 + k as i64 })
                    },
                    &|x| 10 + x[0].bits() as i64,
                    &|_, _, _| None,
                )
            })
        });
        Ok(())
    }
    /// random elements: any drawing of words gives an element below the order, and none is out of reach
    fn limb_random(&mut self, f: &Fd<'tcx>) -> R<()> {
        let m1: BigInt = &f.p - 1;
        for m in ["rand", "rand_from_rng"] {
            let d = self.trait_item("Field", m)?;
            // any generator
            let rt = self.tcx.all_traits_including_private().filter(|t| self.tcx.item_name(*t).as_str() == "RngCore").flat_map(|t| self.plain_implementors(t)).next();
            let Some(rt) = rt else { return unsup("no random generator type") };
            let ga = if m == "rand" { self.tcx.mk_args(&[f.t.into()]) } else { self.tcx.mk_args(&[f.t.into(), rt.into()]) };
            let site = self.impl_site(d, self.tcx.mk_args(&[f.t.into()]));
            let key = format!("{} {}", f.name, m);
            let rule = "a random element is below the order, and every element can be drawn";
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    let draws = std::rc::Rc::new(std::cell::Cell::new(0usize));
                    let (dr, n) = (draws.clone(), f.n);
                    s.it.hooks.insert(
                        "RngCore::next_u64".into(),
                        std::rc::Rc::new(move |it: &mut Interp<'tcx>, _, _, _| {
                            let k = dr.get();
                            if k >= 2 * n {
                                // the third round is like the second: all words are drawn afresh
                                return Z::dead::<Option<V<'tcx>>>();
                            }
                            dr.set(k + 1);
                            let hi: BigInt = (BigInt::one() << 64) - 1;
                            let x = it.z.input(&format!("r{}", k), BigInt::zero(), hi.clone());
                            let t = it.tcx.types.u64;
                            Ok(Some(it.z_val(x, (BigInt::zero(), hi), t)))
                        }),
                    );
                    let mut open = None;
                    let mut out = 0;
                    let mut reach: Option<(BigInt, BigInt)> = None;
                    let ps = s.z_paths(4000, |s| {
                        draws.set(0);
                        let a = if m == "rand" { vec![] } else { vec![ptr_to(V::Int(0))] };
                        let v = s.call(d, ga, a)?;
                        let w = s.words_of(&v)?;
                        if draws.get() == 0 {
                            return unsup("element not drawn from the generator");
                        }
                        out += 1;
                        if w.len() != f.n || !s.within(&w, &BigInt::zero(), &m1, 64) {
                            // a drawing that shows it
                            let d = weigh(&w, 64);
                            let top = 64 * f.n - f.p.bits() as usize;
                            let xs = samples(&f.p, f.n, &(&f.r - 1));
                            for x in xs.iter().map(|x| {
                                // the top word shifted left, as its excess bits are dropped
                                let low = x.mod_floor(&(BigInt::one() << (64 * (f.n - 1))));
                                (((x - &low) << top) + low).mod_floor(&f.r)
                            }).chain(xs.iter().cloned()) {
                                let mut pt = Pt::new();
                                for i in 0..2 * f.n {
                                    pt.insert(format!("r{}", i), (&x >> (64 * (i % f.n))) & ((BigInt::one() << 64) - 1));
                                }
                                let z = &s.it.z;
                                let Some(v) = z.eval_atoms(&pt) else { continue };
                                if z.holds(&v, z.asserted.len()) && z.eval(&d, &v) > m1 {
                                    return Ok(Some(format!("not below the order when the words of {} are drawn", x)));
                                }
                            }
                            open = Some("the element is not shown to be below the order".to_string());
                        }
                        let d = weigh(&w, 64);
                        let b = s.it.z.bound(&d);
                        reach = Some(match reach.take() {
                            None => b,
                            Some(r) => (b.0.min(r.0), b.1.max(r.1)),
                        });
                        Ok(None)
                    })?;
                    for q in ps {
                        match q.r {
                            Ok(None) => {}
                            Ok(Some(m)) => {
                                s.check(&key, &site, rule, false, || m);
                                return Ok(());
                            }
                            Err(Stop::Panic(m)) => {
                                s.check(&key, &site, rule, false, || format!("panics: {}", m));
                                return Ok(());
                            }
                            Err(e) => return Err(e),
                        }
                    }
                    if let Some((lo, hi)) = &reach {
                        if lo.is_positive() || *hi < m1 {
                            s.check(&key, &site, rule, false, || format!("only elements with words from {} to {} can be drawn", lo, hi));
                            return Ok(());
                        }
                    }
                    match open {
                        Some(m) => s.ob(&key, &site, rule, St::Undecided, m),
                        None if out == 0 => return unsup("no drawing gives an element"),
                        None => s.check(&key, &site, rule, true, String::new),
                    }
                    Ok(())
                })
            });
        }
        Ok(())
    }
    fn digits(&mut self, x: &ZP, bits: usize, n: usize, ty: Ty<'tcx>) -> Vec<V<'tcx>> {
        let mut rest = (x.clone(), self.it.z.bound(x));
        let mut out = vec![];
        for _ in 0..n {
            let ((l, li), (h, hi)) = self.it.z.divmod(&rest.0, &rest.1, bits);
            out.push(self.it.z_val(l, li, ty));
            rest = (h, hi);
        }
        out
    }
    /// Inversion: the loop invariants of the extended binary algorithm, and the change of representation around it.
    /// If the code is of another shape, it is evaluated at particular elements, to tell a defect from a rewriting.
    fn limb_inverse(&mut self, f: &Fd<'tcx>) -> R<()> {
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let m1: BigInt = &f.p - 1;
        let d = self.trait_item("Field", "multiplicative_inverse")?;
        let da = self.trait_item("Field", "multiplicative_inverse_assuming_nonzero")?;
        let site = self.impl_site(da, ga);
        let key = format!("{} inverse", f.name);
        let core = self.find_fn("nonzero_multiplicative_inverse")?;
        let csite = self.site(core);
        self.inverse_part(f, &format!("{} inverse by the binary algorithm", f.name), &csite, &|s| s.inverse_core(f))?;
        self.inverse_part(f, &key, &site, &|s| s.inverse_wrap(f, d))
    }
    fn inverse_part(&mut self, f: &Fd<'tcx>, key: &str, site: &str, part: &dyn Fn(&mut Self) -> R<()>) -> R<()> {
        let rule = "the inverse of a nonzero element times the element is one; zero has none";
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let m1: BigInt = &f.p - 1;
        let d = self.trait_item("Field", "multiplicative_inverse")?;
        self.unit(key, site, |s| {
            let why = match s.z_scope(part) {
                Ok(()) => {
                    s.check(key, site, rule, true, String::new);
                    return Ok(());
                }
                Err(e) => e,
            };
            s.it.z.cut = None;
            // particular elements
            let r2 = (&f.r * &f.r).mod_floor(&f.p);
            s.z_scope(|s| {
                for x in samples(&f.p, f.n, &m1) {
                    s.it.reset_path();
                    let e = s.limb_elem(f, &ZP::int(x.clone()));
                    let v = s.call(d, ga, vec![ptr_to(e)]);
                    let bad = match v {
                        Err(Stop::Panic(m)) => Some(format!("panics: {}", m)),
                        Err(_) => None,
                        Ok(v) => {
                            let v = s.it.deref_all(&v)?;
                            let V::Adt(a) = &v else { return unsup("result of inversion") };
                            if (a.variant == 0) != x.is_zero() {
                                Some(format!("presence of an inverse: {}", a.variant == 1))
                            } else if x.is_zero() {
                                None
                            } else {
                                let w = ZP::weighted(&s.words_of(&a.f[0].clone())?);
                                if !w.is_const() {
                                    None
                                } else if w.c > m1 || (&w.c * &x - &r2).mod_floor(&f.p) != BigInt::zero() {
                                    Some(format!("gives {}", w.c))
                                } else {
                                    None
                                }
                            }
                        }
                    };
                    if let Some(m) = bad {
                        s.check(key, site, rule, false, || format!("at the words of {}: {}", x, m));
                        return Ok(());
                    }
                }
                Err(why)
            })
        });
        Ok(())
    }
    fn inverse_core(&mut self, f: &Fd<'tcx>) -> R<()> {
        let d = self.find_fn("nonzero_multiplicative_inverse")?;
        let ga = self.tcx.mk_args(&[ty::Const::from_target_usize(self.tcx, f.n as u64).into()]);
        let m1: BigInt = &f.p - 1;
        self.it.z.cut = Some(Cut { def: Some(d), p: f.p.clone(), a: ZP::atom(0), ..Cut::default() });
        let r = self.z_paths(4000, |s| {
            let x = s.it.z.input("a", BigInt::one(), m1.clone());
            let a = s.it.z_limbs(&x, f.n);
            let p = s.it.z_limbs(&ZP::int(f.p.clone()), f.n);
            let v = s.call(d, ga, vec![seq(a), seq(p)])?;
            let w = s.words_of(&v)?;
            let e = ZP::weighted(&w).mul(&x).sub(&ZP::int(1));
            if !s.it.z.congruent_elim(&e, &f.p) || !s.within(&w, &BigInt::zero(), &m1, 64) {
                return unsup("the result is not shown to be an inverse");
            }
            match s.pending_ok() {
                Ok(()) => Ok(()),
                Err(m) => unsup(m),
            }
        });
        self.it.z.cut = None;
        let r = r?;
        if r.is_empty() {
            return unsup("no path through inversion");
        }
        for p in r {
            match p.r {
                Ok(()) => {}
                Err(Stop::Panic(m)) => return unsup(format!("panics: {}", m)),
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn inverse_wrap(&mut self, f: &Fd<'tcx>, d: rustc_hir::def_id::DefId) -> R<()> {
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let m1: BigInt = &f.p - 1;
        let n = f.n;
        let want: std::rc::Rc<std::cell::RefCell<Option<ZP>>> = Default::default();
        let (w2, m2, p2) = (want.clone(), m1.clone(), f.p.clone());
        let h = self.find_fn("nonzero_multiplicative_inverse")?;
        let h = self.it.key(h);
        self.it.hooks.insert(
            h,
            std::rc::Rc::new(move |it, _, a, _| {
                let mut v = vec![];
                for x in a {
                    let s = it.seq_items(x)?;
                    let l: Option<Vec<ZP>> = s.iter().map(|x| it.z_get(x).map(|p| p.0)).collect();
                    let Some(l) = l else { return unsup("words") };
                    v.push(it.z.norm(&ZP::weighted(&l)));
                }
                if v.len() != 2 || v[0] != it.z.norm(&ZP::atom(0)) || v[1] != ZP::int(p2.clone()) {
                    return unsup("inversion of something else");
                }
                let i = it.z.input("i", BigInt::zero(), m2.clone());
                *w2.borrow_mut() = Some(i.clone());
                let l = it.z_limbs(&i, n);
                Ok(Some(seq(l)))
            }),
        );
        let r3: BigInt = &f.r * &f.r * &f.r;
        let ps = self.z_paths(4000, |s| {
            *want.borrow_mut() = None;
            let x = s.it.z.input("a", BigInt::zero(), m1.clone());
            let e = s.limb_elem(f, &x);
            let v = s.call(d, ga, vec![ptr_to(e)])?;
            let v = s.it.deref_all(&v)?;
            let V::Adt(a) = &v else { return unsup("result of inversion") };
            let b = s.it.z.bound(&x);
            if a.variant == 0 {
                return if b.1.is_zero() { Ok(()) } else { unsup("no inverse of an element not shown to be zero") };
            }
            let Some(i) = want.borrow().clone() else { return unsup("inversion without the binary algorithm") };
            // the element is known not to be zero: some word of it is not
            let l = s.it.z_limbs(&x, f.n);
            let nz = l.iter().any(|w| {
                let Some((p, _)) = s.it.z_get(w) else { return false };
                matches!(s.it.z_eq(&p), V::Int(0))
            });
            if !nz && b.0.is_zero() {
                return unsup("zero is not shown to be excluded");
            }
            let w = s.words_of(&a.f[0].clone())?;
            let _ = s.it.z_view(&w);
            let e = ZP::weighted(&w).scale(&f.r).sub(&i.scale(&r3));
            if w.len() != f.n || !s.congruent(&e, &f.p) || !s.within(&w, &BigInt::zero(), &m1, 64) {
                return unsup("the result is not shown to be the inverse in Montgomery form");
            }
            match s.pending_ok() {
                Ok(()) => Ok(()),
                Err(m) => unsup(m),
            }
        })?;
        for p in ps {
            match p.r {
                Ok(()) => {}
                Err(Stop::Panic(m)) => return unsup(format!("panics: {}", m)),
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    /// Does the operation see elements only through their canonical 64-bit words?  If so, such words stand for
    /// the element from here on, and the operation is decided for arbitrary ones.
    fn through_words(&mut self, f: &Fd<'tcx>, call: &dyn Fn(&mut Self, V<'tcx>) -> R<()>) -> R<bool> {
        let via = std::rc::Rc::new(std::cell::Cell::new(false));
        let (v2, n) = (via.clone(), f.n);
        self.it.hooks.insert(
            "Field::to_canonical_u64_vec".into(),
            std::rc::Rc::new(move |it, _, a, _| {
                v2.set(true);
                let v = it.deref_all(&a[0])?;
                let V::Adt(e) = &v else { return unsup("element") };
                let w = it.seq_items(&e.f[0].clone())?;
                if w.len() != n {
                    return unsup("element");
                }
                Ok(Some(seq(w.iter().cloned().collect())))
            }),
        );
        self.it.reset_path();
        let x = self.it.z.input("a", BigInt::zero(), &f.p - 1);
        let e = ptr_to(self.limb_elem(f, &x));
        let _ = call(self, e);
        if !via.get() {
            self.it.hooks.remove("Field::to_canonical_u64_vec");
        }
        Ok(via.get())
    }
    /// conversions between elements and their canonical integers
    fn limb_conversions(&mut self, f: &Fd<'tcx>) -> R<()> {
        let m1: BigInt = &f.p - 1;
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let tcx = self.tcx;
        let ty = &tcx.types;
        for (m, bits, ty) in [("u64_vec", 64usize, ty.u64), ("u32_vec", 32, ty.u32), ("u8_vec", 8, ty.u8), ("bool_vec", 1, ty.bool)] {
            let d = self.trait_item("Field", &format!("to_canonical_{}", m))?;
            let site = self.impl_site(d, ga);
            let key = format!("{} to_canonical_{}", f.name, m);
            let inputs = [("a", m1.clone())];
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    let via = m != "u64_vec" && s.through_words(f, &|s, e| s.call(d, ga, vec![e]).map(|_| ()))?;
                    s.limb_op(
                        &key,
                        &site,
                        f,
                        &inputs,
                        &|s, x| {
                            let e = s.limb_elem(f, &x[0]);
                            s.call(d, ga, vec![ptr_to(e)])
                        },
                        &|x| x[0].clone(),
                        &if via { BigInt::one() } else { f.r.clone() },
                        bits,
                    )
                })
            });
            if m == "bool_vec" || m == "u8_vec" {
                continue;
            }
            let d = self.trait_item("Field", &format!("from_canonical_{}", m))?;
            let site = self.impl_site(d, ga);
            let key = format!("{} from_canonical_{}", f.name, m);
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    s.limb_op(
                        &key,
                        &site,
                        f,
                        &inputs,
                        &|s, x| {
                            let l = s.digits(&x[0], bits, 64 * f.n / bits, ty);
                            s.call(d, ga, vec![seq(l)])
                        },
                        &|x| x[0].scale(&f.r),
                        &BigInt::one(),
                        64,
                    )
                })
            });
        }
        for (m, bits, t) in [("u64", 64usize, ty.u64), ("u32", 32, ty.u32), ("usize", 64, ty.usize), ("bool", 1, ty.bool)] {
            let d = self.trait_item("Field", &format!("from_canonical_{}", m))?;
            let site = self.impl_site(d, ga);
            let key = format!("{} from_canonical_{}", f.name, m);
            let inputs = [("c", (BigInt::one() << bits) - 1)];
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    s.limb_op(
                        &key,
                        &site,
                        f,
                        &inputs,
                        &|s, x| {
                            let b = s.it.z.bound(&x[0]);
                            let v = s.it.z_val(x[0].clone(), b, t);
                            s.call(d, ga, vec![v])
                        },
                        &|x| x[0].scale(&f.r),
                        &BigInt::one(),
                        64,
                    )
                })
            });
        }
        // bytes of any integer of the right width
        let d = self.trait_item("Field", "from_canonical_u8_vec")?;
        let site = self.impl_site(d, ga);
        let key = format!("{} from_canonical_u8_vec", f.name);
        self.unit(&key.clone(), &site.clone(), |s| {
            s.z_scope(|s| {
                // the validity check and the conversion of 64-bit words are decided on their own
                let parse = |s: &mut Self, x: &ZP| -> R<V<'tcx>> {
                    let t = s.tcx.types.u8;
                    let l = s.digits(x, 8, 8 * f.n, t);
                    let v = s.call(d, ga, vec![seq(l)])?;
                    s.it.deref_all(&v)
                };
                let used = s.word_functions(f);
                s.paths(100, |s| {
                    let x = s.it.z.input("c", BigInt::zero(), &f.r - 1);
                    parse(s, &x)
                })?;
                let modular = used.get() == 3;
                if !modular {
                    s.it.hooks.remove("Field::is_valid_canonical_u64");
                    s.it.hooks.remove("Field::from_canonical_u64_vec");
                }
                let scale = if modular { BigInt::one() } else { f.r.clone() };
                let stash: std::cell::RefCell<Option<ZP>> = Default::default();
                s.decision_(
                    Some((&stash, &|x| (&x[0] * &scale).mod_floor(&f.p))),
                    &key,
                    &site,
                    "parsing succeeds exactly on integers below the order, and gives the element they stand for",
                    f,
                    &[("c", &f.r - 1)],
                    &|s, x| {
                        let v = parse(s, &x[0])?;
                        let V::Adt(a) = &v else { return unsup("result of parsing") };
                        if a.variant == 1 {
                            return Ok(0);
                        }
                        let w = s.words_of(&a.f[0].clone())?;
                        *stash.borrow_mut() = Some(ZP::weighted(&w));
                        let e = ZP::weighted(&w).sub(&x[0].scale(&scale));
                        let ok = w.len() == f.n && s.congruent(&e, &f.p) && s.within(&w, &BigInt::zero(), &m1, 64);
                        Ok(if ok { 1 } else { 2 })
                    },
                    &|x| (x[0] < f.p) as i64,
                    &|_, x, r| {
                        let d = x[0].sub(&ZP::int(f.p.clone()));
                        Some(if r == 1 { (d, None, Some(BigInt::from(-1))) } else { (d, Some(BigInt::zero()), None) })
                    },
                )
            })
        });
        Ok(())
    }
    /// bytes of the wrong number
    fn limb_lengths(&mut self, f: &Fd<'tcx>) -> R<()> {
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let d = self.trait_item("Field", "from_canonical_u8_vec")?;
        let site = self.impl_site(d, ga);
        for len in [0, 1, 7, 8, 8 * f.n - 8, 8 * f.n - 1, 8 * f.n + 1, 8 * f.n + 8] {
            let key = format!("{} from_canonical_u8_vec, {} bytes", f.name, len);
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    s.decision(
                        &key,
                        &site,
                        "parsing fails, without panicking, on a wrong number of bytes",
                        f,
                        &[("c", (BigInt::one() << (8 * len)) - 1)],
                        &|s, x| {
                            let l = s.digits(&x[0], 8, len, s.tcx.types.u8);
                            let v = s.call(d, ga, vec![seq(l)])?;
                            s.truth(v)
                        },
                        &|_| 1,
                        &|_, _, r| if r == 1 { None } else { Some((ZP::default(), Some(1.into()), None)) },
                    )
                })
            });
        }
        Ok(())
    }
    /// a decision about words: on every path its outcome r implies the bounds given by `implied`; outcome 2 is
    /// never right
    fn decision(
        &mut self,
        key: &str,
        site: &str,
        rule: &str,
        f: &Fd<'tcx>,
        inputs: &[(&str, BigInt)],
        call: &dyn Fn(&mut Self, &[ZP]) -> R<i64>,
        want: &dyn Fn(&[BigInt]) -> i64,
        implied: &dyn Fn(&mut Self, &[ZP], i64) -> Option<(ZP, Option<BigInt>, Option<BigInt>)>,
    ) -> R<()> {
        self.decision_(None, key, site, rule, f, inputs, call, want, implied)
    }
    /// stand-ins for the functions between words and elements; bits of the result: which were used
    fn word_functions(&mut self, f: &Fd<'tcx>) -> std::rc::Rc<std::cell::Cell<u8>> {
        let used = std::rc::Rc::new(std::cell::Cell::new(0u8));
        let (u, n, p) = (used.clone(), f.n, f.p.clone());
        self.it.hooks.insert(
            "Field::is_valid_canonical_u64".into(),
            std::rc::Rc::new(move |it, _, a, _| {
                u.set(u.get() | 1);
                let w = it.seq_items(&a[0])?;
                if w.len() != n {
                    return Ok(Some(V::Int(0)));
                }
                let l: Option<Vec<ZP>> = w.iter().map(|x| it.z_get(x).map(|p| p.0)).collect();
                let Some(l) = l else { return unsup("words") };
                let d = ZP::weighted(&l).sub(&ZP::int(p.clone()));
                let b = it.z.bound(&d);
                Ok(Some(it.z_negative(&d, &b)))
            }),
        );
        let (u, t, n) = (used.clone(), f.t, f.n);
        self.it.hooks.insert(
            "Field::from_canonical_u64_vec".into(),
            std::rc::Rc::new(move |it, _, a, _| {
                u.set(u.get() | 2);
                let w = it.seq_items(&a[0])?;
                if w.len() != n {
                    return unsup("words");
                }
                Ok(Some(adt(t, 0, vec![seq(w.iter().cloned().collect())])))
            }),
        );
        used
    }
    fn decision_(
        &mut self,
        value: Option<(&std::cell::RefCell<Option<ZP>>, &dyn Fn(&[BigInt]) -> BigInt)>,
        key: &str,
        site: &str,
        rule: &str,
        f: &Fd<'tcx>,
        inputs: &[(&str, BigInt)],
        call: &dyn Fn(&mut Self, &[ZP]) -> R<i64>,
        want: &dyn Fn(&[BigInt]) -> i64,
        implied: &dyn Fn(&mut Self, &[ZP], i64) -> Option<(ZP, Option<BigInt>, Option<BigInt>)>,
    ) -> R<()> {
        let mut bad: Option<String> = None;
        let mut open: Option<String> = None;
        let mut pts: Option<Vec<Pt>> = None;
        let ps = self.z_paths(4000, |s| {
            let ins: Vec<ZP> = inputs.iter().map(|(n, h)| s.it.z.input(n, BigInt::zero(), h.clone())).collect();
            let r = call(s, &ins);
            if matches!(&r, Err(Stop::Unsupported(m)) if m.starts_with(DEAD)) || bad.is_some() {
                return r.map(|_| ());
            }
            let out = match &r {
                Ok(v) => *v,
                Err(Stop::Panic(_)) => 3,
                Err(Stop::Unsupported(m)) => return unsup(m.clone()),
            };
            let mut good = out < 2 && s.pending_ok().is_ok();
            if good {
                good = match implied(s, &ins, out) {
                    None => true,
                    Some((d, lo, hi)) => {
                        let z = &s.it.z;
                        let (a, b) = (z.bound(&d), z.bound_elim(&d));
                        lo.map(|l| a.0 >= l || b.0 >= l).unwrap_or(true) && hi.map(|h| a.1 <= h || b.1 <= h).unwrap_or(true)
                    }
                };
            }
            if good {
                return Ok(());
            }
            if pts.is_none() {
                pts = Some(grid(&f.p, f.n, inputs));
            }
            let mut hit = false;
            for pt in pts.as_ref().unwrap() {
                let z = &s.it.z;
                let Some(v) = z.eval_atoms(pt) else { continue };
                if !z.holds(&v, z.asserted.len()) {
                    continue;
                }
                hit = true;
                let iv: Vec<BigInt> = inputs.iter().map(|(n, _)| pt[*n].clone()).collect();
                let w = want(&iv);
                if out == 2 && w == 1 {
                    // the value itself at this point
                    if let Some((st, val)) = &value {
                        if let Some(d) = &*st.borrow() {
                            if z.eval(d, &v) == val(&iv) {
                                continue;
                            }
                        }
                    }
                }
                if w != out {
                    let o = match (out, &r) {
                        (_, Err(Stop::Panic(m))) => format!("panics ({})", m),
                        (2, _) => "gives a wrong value".into(),
                        _ => format!("decides {}", out),
                    };
                    bad = Some(format!("{} instead of {} at {}", o, w, show_pt(pt)));
                    return Ok(());
                }
            }
            if open.is_none() {
                open = Some(format!("outcome {} not shown to be right on a path{}", out, if hit { "" } else { " without sample points" }));
            }
            Ok(())
        })?;
        for q in ps {
            if let Err(Stop::Unsupported(m)) = q.r {
                open = Some(m);
            }
        }
        match (bad, open) {
            (Some(m), _) => self.check(key, site, rule, false, || m),
            (None, Some(m)) => self.ob(key, site, rule, St::Undecided, m),
            _ => self.check(key, site, rule, true, String::new),
        }
        Ok(())
    }
    fn truth(&mut self, v: V<'tcx>) -> R<i64> {
        let v = self.it.deref_all(&v)?;
        Ok(match &v {
            V::Adt(a) => a.variant as i64,
            v if self.it.is_z(v) => self.it.z_decide(v)? as i64,
            v => v.int()? as i64,
        })
    }
    fn limb_predicates(&mut self, f: &Fd<'tcx>) -> R<()> {
        let ga = self.tcx.mk_args(&[f.t.into()]);
        let gaa = self.tcx.mk_args(&[f.t.into(), f.t.into()]);
        let m1: BigInt = &f.p - 1;
        // validity of canonical words
        let d = self.trait_item("Field", "is_valid_canonical_u64")?;
        let site = self.impl_site(d, ga);
        for len in [f.n, f.n - 1, f.n + 1, 0] {
            let key = format!("{} is_valid_canonical_u64, {} words", f.name, len);
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    s.decision(
                        &key,
                        &site,
                        "words are valid exactly when they have the field's length and are below the order",
                        f,
                        &[("c", &f.r - 1)],
                        &|s, x| {
                            let l = s.digits(&x[0], 64, len, s.tcx.types.u64);
                            let v = s.call(d, ga, vec![sref(l)])?;
                            s.truth(v)
                        },
                        &|x| (len == f.n && x[0] < f.p) as i64,
                        &|_, x, r| {
                            let d = x[0].sub(&ZP::int(f.p.clone()));
                            if len != f.n {
                                return if r == 0 { None } else { Some((ZP::int(1), Some(2.into()), None)) };
                            }
                            Some(if r == 1 { (d, None, Some(BigInt::from(-1))) } else { (d, Some(BigInt::zero()), None) })
                        },
                    )
                })
            });
        }
        // zero, one, equality
        for m in ["is_zero", "is_nonzero", "is_one", "eq"] {
            let (d, g) = if m == "eq" { (self.lang_op("eq")?, gaa) } else { (self.trait_item("Field", m)?, ga) };
            let site = self.impl_site(d, g);
            let key = format!("{} {}", f.name, m);
            let one: BigInt = f.r.mod_floor(&f.p);
            let rhs = |x: &[ZP]| match m {
                "eq" => x[1].clone(),
                "is_one" => ZP::int(one.clone()),
                _ => ZP::default(),
            };
            let yes = if m == "is_nonzero" { 0 } else { 1 };
            let inputs: Vec<(&str, BigInt)> = if m == "eq" { vec![("a", m1.clone()), ("b", m1.clone())] } else { vec![("a", m1.clone())] };
            self.unit(&key.clone(), &site.clone(), |s| {
                s.z_scope(|s| {
                    s.decision(
                        &key,
                        &site,
                        "the comparison of elements decides equality of the values modulo the order",
                        f,
                        &inputs,
                        &|s, x| {
                            let mut a = vec![];
                            for y in x {
                                a.push(ptr_to(s.limb_elem(f, y)));
                            }
                            let v = s.call(d, g, a)?;
                            s.truth(v)
                        },
                        &|x| {
                            let b = if m == "eq" { x[1].clone() } else if m == "is_one" { one.clone() } else { BigInt::zero() };
                            if x[0] == b { yes } else { 1 - yes }
                        },
                        &|s, x, r| {
                            let y = rhs(x);
                            if r == yes {
                                return Some((x[0].sub(&y), Some(BigInt::zero()), Some(BigInt::zero())));
                            }
                            // some word differs
                            let differ = (0..f.n).any(|i| {
                                let a = s.it.z_limbs(&x[0], f.n);
                                let b = s.it.z_limbs(&y, f.n);
                                let (Some((p, _)), Some((q, _))) = (s.it.z_get(&a[i]), s.it.z_get(&b[i])) else { return false };
                                matches!(s.it.z_eq(&p.sub(&q)), V::Int(0))
                            });
                            if differ { None } else { Some((ZP::default(), Some(1.into()), None)) }
                        },
                    )
                })
            });
        }
        // order
        let Some(ot) = self.tcx.get_diagnostic_item(rustc_span::sym::Ord) else { return unsup("Ord") };
        let Some(d) = self.tcx.associated_item_def_ids(ot).iter().cloned().find(|d| self.tcx.opt_item_name(*d).map(|x| x.as_str() == "cmp").unwrap_or(false)) else { return unsup("Ord::cmp") };
        let site = self.impl_site(d, ga);
        let key = format!("{} ordering", f.name);
        let tc = self.trait_item("Field", "to_canonical_u64_vec")?;
        let rinv = modinv(&f.r.mod_floor(&f.p), &f.p);
        self.unit(&key.clone(), &site.clone(), |s| {
            s.z_scope(|s| {
                let via = s.through_words(f, &|s, e| s.call(d, ga, vec![e.clone(), e]).map(|_| ()))?;
                s.decision(
                    &key,
                    &site,
                    "elements are ordered by their canonical integers",
                    f,
                    &[("a", m1.clone()), ("b", m1.clone())],
                    &|s, x| {
                        let a = ptr_to(s.limb_elem(f, &x[0]));
                        let b = ptr_to(s.limb_elem(f, &x[1]));
                        let v = s.call(d, ga, vec![a.clone(), b.clone()])?;
                        let r = s.truth(v)?;
                        let (wa, wb) = (s.call(tc, ga, vec![a])?, s.call(tc, ga, vec![b])?);
                        let (wa, wb) = (s.words_of(&wa)?, s.words_of(&wb)?);
                        let l: Vec<ZP> = wa.iter().zip(&wb).map(|(a, b)| a.sub(b)).collect();
                        let i = s.it.z_limb_bound(&l);
                        let ok = match r {
                            0 => i.1.is_negative(),
                            1 => i.0.is_zero() && i.1.is_zero(),
                            _ => i.0.is_positive(),
                        };
                        Ok(if ok { 1 } else { 10 + r })
                    },
                    &|x| {
                        let rinv = if via { BigInt::one() } else { rinv.clone() };
                        let (a, b) = ((&x[0] * &rinv).mod_floor(&f.p), (&x[1] * &rinv).mod_floor(&f.p));
                        11 + (a > b) as i64 - (a < b) as i64
                    },
                    &|_, _, _| None,
                )
            })
        });
        Ok(())
    }
}
fn weigh(w: &[ZP], bits: usize) -> ZP {
    w.iter().enumerate().fold(ZP::default(), |a, (i, x)| a.add(&x.shl(bits * i)))
}
fn grid(p: &BigInt, n: usize, inputs: &[(&str, BigInt)]) -> Vec<Pt> {
    let mut out: Vec<Pt> = vec![Pt::new()];
    if inputs.len() == 2 {
        // pairs, and pairs whose sum or difference is a special value
        let x = samples(p, n, &inputs[0].1);
        let y = samples(p, n, &inputs[1].1);
        let mut v = vec![];
        for a in &x {
            for b in &y {
                v.push((a.clone(), b.clone()));
                v.push((a.clone(), b - a));
                v.push((a.clone(), a - b));
            }
        }
        v.retain(|(a, b)| !a.is_negative() && !b.is_negative() && a <= &inputs[0].1 && b <= &inputs[1].1);
        return v.into_iter().map(|(a, b)| [(inputs[0].0.to_string(), a), (inputs[1].0.to_string(), b)].into_iter().collect()).collect();
    }
    for (nm, h) in inputs {
        let mut next = vec![];
        for o in &out {
            for x in samples(p, n, h) {
                let mut o = o.clone();
                o.insert(nm.to_string(), x);
                next.push(o);
            }
        }
        out = next;
    }
    out
}
fn show_pt(p: &Pt) -> String {
    let mut v: Vec<String> = p.iter().map(|(n, x)| format!("{} = {}", n, x)).collect();
    v.sort();
    v.join(", ")
}
