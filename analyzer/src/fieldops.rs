//! Operations derived from field arithmetic: powers, roots, quadratic residues, batches, subgroups.
//! Powers are decided in a domain of exponents: an element is a symbolic base to an integer times a known element
//! of two-power order.
use crate::base::*;
use crate::interp::*;
use crate::model::modinv;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use rustc_middle::ty::Ty;
use std::rc::Rc;

/// base^n * zeta^c: n modulo the order of the base, c modulo 2^s
#[derive(Clone, Debug, PartialEq)]
struct Lg {
    n: BigUint,
    c: BigUint,
}
#[derive(Clone)]
struct Dom {
    fid: FieldId,
    p: BigUint,
    order: BigUint,
    two: BigUint,
    s: usize,
    zeta: BigUint,
}
enum El {
    L(Lg),
    C(BigUint),
}
impl Dom {
    fn val<'t>(&self, l: &Lg, t: Ty<'t>) -> V<'t> {
        V::Sym(name(&format!("lg:{}:{}", l.n, l.c)), t)
    }
    fn parse<'t>(&self, it: &mut Interp<'t>, v: &V<'t>) -> R<Option<El>> {
        let v = it.deref_all(v)?;
        Ok(match &v {
            V::F(p) if p.fid == self.fid => p.as_const().map(El::C),
            V::Sym(t, _) => match term(*t) {
                Term::Name(s) if s.starts_with("lg:") => {
                    let mut i = s[3..].split(':');
                    let mut g = || i.next().and_then(|x| x.parse().ok()).unwrap_or_default();
                    let n = g();
                    Some(El::L(Lg { n, c: g() }))
                }
                _ => None,
            },
            _ => None,
        })
    }
    /// logarithm of a constant of two-power order
    fn dlog(&self, c: &BigUint) -> R<Lg> {
        let mut e = BigUint::zero();
        let zi = self.zeta.modpow(&(&self.p - 2u32), &self.p);
        let one = BigUint::one();
        for i in 0..self.s {
            let r = c * zi.modpow(&e, &self.p) % &self.p;
            let h = r.modpow(&(&one << (self.s - 1 - i)), &self.p);
            if h != one {
                e += &one << i;
            }
        }
        if self.zeta.modpow(&e, &self.p) != *c {
            return unsup("a constant among powers");
        }
        Ok(Lg { n: BigUint::zero(), c: e })
    }
    fn lg(&self, e: &El) -> R<Lg> {
        match e {
            El::L(l) => Ok(l.clone()),
            El::C(c) if c.is_one() => Ok(Lg { n: BigUint::zero(), c: BigUint::zero() }),
            El::C(c) => self.dlog(c),
        }
    }
    fn mul(&self, a: &Lg, b: &Lg) -> Lg {
        Lg { n: (&a.n + &b.n) % &self.order, c: (&a.c + &b.c) % &self.two }
    }
    fn pow(&self, a: &Lg, e: &BigUint) -> Lg {
        Lg { n: &a.n * e % &self.order, c: &a.c * e % &self.two }
    }
}
const OPS: [&str; 16] = ["Add::add", "Sub::sub", "Neg::neg", "Mul::mul", "Div::div", "Field::square", "Field::double", "Field::triple", "Field::quadruple", "Field::cube", "PartialEq::eq", "PartialEq::ne", "Field::exp", "Field::multiplicative_inverse_assuming_nonzero", "Field::is_zero", "Field::is_one"];

impl<'tcx> Ctx<'tcx> {
    fn fo_scope<T>(&mut self, skip: &[&str], f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let hooks = self.it.hooks.clone();
        self.it.skip_model = skip.iter().map(|s| s.to_string()).collect();
        self.it.big_on = true;
        self.it.reset();
        let r = f(self);
        self.it.skip_model.clear();
        self.it.big_on = false;
        self.it.hooks = hooks;
        self.it.reset();
        r
    }
    /// arithmetic on exponents instead of elements
    fn log_scope<T>(&mut self, d: &Dom, t: Ty<'tcx>, exp: bool, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let ops: Vec<&str> = OPS.iter().filter(|o| exp || **o != "Field::exp").cloned().collect();
        let mut skip: Vec<&str> = ops.iter().map(|o| o.split_once("::").unwrap().1).collect();
        skip.extend(["exp", "is_quadratic_residue", "square_root"]);
        self.fo_scope(&skip, |s| {
            for o in ops {
                let d = d.clone();
                let o2 = o.to_string();
                s.it.hooks.insert(
                    o.into(),
                    Rc::new(move |it: &mut Interp<'tcx>, _, args, _| {
                        let mut els = vec![];
                        for a in args {
                            match d.parse(it, a)? {
                                Some(e) => els.push(e),
                                None if els.is_empty() => return Ok(None),
                                None => return unsup("operand"),
                            }
                        }
                        let (p, fid) = (&d.p, d.fid);
                        let consts: Option<Vec<BigUint>> = els.iter().map(|e| if let El::C(c) = e { Some(c.clone()) } else { None }).collect();
                        if let Some(c) = consts {
                            let f = |x: BigUint| Ok(Some(V::F(Poly::constant(fid, x % p))));
                            let b = |x: bool| Ok(Some(V::Int(x as u128)));
                            return match o2.as_str() {
                                "Add::add" => f(&c[0] + &c[1]),
                                "Sub::sub" => f(&c[0] + p - &c[1]),
                                "Neg::neg" => f(p - &c[0]),
                                "Mul::mul" => f(&c[0] * &c[1]),
                                "Div::div" if c[1].is_zero() => Err(Stop::Panic("division by zero".into())),
                                "Div::div" => f(&c[0] * c[1].modpow(&(p - 2u32), p)),
                                "Field::square" => f(&c[0] * &c[0]),
                                "Field::double" => f(&c[0] * 2u32),
                                "Field::triple" => f(&c[0] * 3u32),
                                "Field::quadruple" => f(&c[0] * 4u32),
                                "Field::cube" => f(&c[0] * &c[0] * &c[0]),
                                "PartialEq::eq" => b(c[0] == c[1]),
                                "PartialEq::ne" => b(c[0] != c[1]),
                                "Field::exp" => f(c[0].modpow(&c[1], p)),
                                "Field::multiplicative_inverse_assuming_nonzero" => f(c[0].modpow(&(p - 2u32), p)),
                                "Field::is_zero" => b(c[0].is_zero()),
                                "Field::is_one" => b(c[0].is_one()),
                                _ => Ok(None),
                            };
                        }
                        let v = |l: Lg| Ok(Some(d.val(&l, t)));
                        if o2 == "Field::exp" {
                            let (El::L(a), El::C(e)) = (&els[0], &els[1]) else { return unsup("exponent") };
                            return v(d.pow(a, e));
                        }
                        let zero = |e: &El| matches!(e, El::C(c) if c.is_zero());
                        if o2.starts_with("PartialEq") {
                            // a symbolic base is not zero
                            let eq = if els.iter().any(zero) {
                                false
                            } else {
                                let (a, b) = (d.lg(&els[0])?, d.lg(&els[1])?);
                                // without roots of unity, the base is a generator of the whole group
                                if a.n != b.n && d.s > 0 {
                                    return unsup("comparison of powers of an arbitrary element");
                                }
                                a == b
                            };
                            return Ok(Some(V::Int((eq == (o2 == "PartialEq::eq")) as u128)));
                        }
                        if o2 == "Field::is_zero" {
                            return Ok(Some(V::Int(0)));
                        }
                        if o2 == "Mul::mul" && els.iter().any(zero) {
                            return Ok(Some(V::F(Poly::zero(fid))));
                        }
                        let l: Vec<Lg> = els.iter().map(|e| d.lg(e)).collect::<R<_>>()?;
                        match o2.as_str() {
                            "Mul::mul" => v(d.mul(&l[0], &l[1])),
                            "Div::div" => v(d.mul(&l[0], &d.pow(&l[1], &(p - 2u32)))),
                            "Field::square" => v(d.pow(&l[0], &2u32.into())),
                            "Field::cube" => v(d.pow(&l[0], &3u32.into())),
                            "Field::multiplicative_inverse_assuming_nonzero" => v(d.pow(&l[0], &(p - 2u32))),
                            "Field::is_one" if d.s == 0 => Ok(Some(V::Int(l[0].n.is_zero() as u128))),
                            "Field::is_one" if l[0].n.is_zero() => Ok(Some(V::Int(l[0].c.is_zero() as u128))),
                            m => unsup(format!("{} of a power", m)),
                        }
                    }),
                );
            }
            f(s)
        })
    }
    pub fn check_fieldops(&mut self) -> R<()> {
        for t in self.all_fields()? {
            let Some(fid) = self.it.field_ty(t) else { continue };
            self.field_powers(t, fid)?;
            self.field_roots(t, fid)?;
            self.field_lists(t, fid)?;
        }
        Ok(())
    }
    fn fo_unit(&mut self, key: &str, m: &str, t: Ty<'tcx>, f: impl FnOnce(&mut Self, &str, &str, rustc_hir::def_id::DefId, rustc_middle::ty::GenericArgsRef<'tcx>) -> R<()>) -> R<()> {
        let d = self.trait_item("Field", m)?;
        let ga = self.tcx.mk_args(&[t.into()]);
        let site = self.impl_site(d, ga);
        let k = format!("{} {}", self.it.head(t), key);
        let (k2, s2) = (k.clone(), site.clone());
        let mut f = Some(f);
        self.unit(&k, &site, move |s| match f.take() {
            Some(f) => f(s, &k2, &s2, d, ga),
            None => Ok(()),
        });
        Ok(())
    }
    /// exponents that exercise every bit and word of the power
    fn powers_for(p: &BigUint) -> Vec<BigUint> {
        let one = BigUint::one();
        let mut v: Vec<BigUint> = (0u32..8).map(BigUint::from).collect();
        let bits = p.bits() as usize;
        for i in 0..bits {
            let b = &one << i;
            v.push(b.clone());
            v.push(&b - 1u32);
            v.push(&b + 1u32);
            v.push(&b * 3u32 / 2u32);
        }
        for i in 1..=bits / 64 {
            for j in 0..=bits / 64 {
                v.push((&one << (64 * i)) + (&one << (64 * j)));
                v.push((&one << (64 * i + 1)) + (&one << (64 * j)) - 1u32);
            }
        }
        for k in 1u32..4 {
            v.push(p - k);
            v.push((p - 1u32) / (k + 1));
        }
        let mut x = BigUint::from(0x9e3779b97f4a7c15u64);
        for _ in 0..8 {
            x = (&x * &x * &x + 0x1234567u64) % p;
            v.push(x.clone());
        }
        v.retain(|x| x < p);
        v.sort();
        v.dedup();
        v
    }
    fn field_powers(&mut self, t: Ty<'tcx>, fid: FieldId) -> R<()> {
        let p = field_p(fid);
        let rule = "the power is the product of as many factors";
        self.fo_unit("exp", "exp", t, |s, k, site, d, ga| {
            let dom = Dom { fid, p: p.clone(), order: &p - 1u32, two: BigUint::one(), s: 0, zeta: BigUint::one() };
            let powers = Self::powers_for(&p);
            let g = s.fconst(t, "MULTIPLICATIVE_SUBGROUP_GENERATOR")?;
            let mut bad = None;
            s.log_scope(&dom, t, false, |s| {
                for e in &powers {
                    s.it.reset_path();
                    let x = dom.val(&Lg { n: BigUint::one(), c: BigUint::zero() }, t);
                    let v = s.call(d, ga, vec![ptr_to(x), V::F(Poly::constant(fid, e.clone()))])?;
                    let Some(el) = dom.parse(&mut s.it, &v)? else { return unsup("result of exponentiation") };
                    let l = dom.lg(&el)?;
                    // the exponents may differ by a multiple of the group's order
                    if l.n != e % &dom.order || !l.c.is_zero() {
                        let (a, b) = (g.modpow(&l.n, &p), g.modpow(e, &p));
                        if a != b {
                            bad = Some(format!("x^{} is x^{} instead", e, l.n));
                            return Ok(());
                        }
                    }
                }
                Ok(())
            })?;
            s.fo_scope(&["exp"], |s| {
                for (b, e, r) in [(0u32, 0u32, 1u32), (0, 1, 0), (0, 2, 0), (0, 64, 0), (1, 0, 1), (1, 5, 1)] {
                    s.it.reset_path();
                    let v = s.call(d, ga, vec![ptr_to(V::F(Poly::constant(fid, b.into()))), V::F(Poly::constant(fid, e.into()))])?.poly()?;
                    if v.as_const() != Some(r.into()) {
                        bad = Some(format!("{}^{} is {}", b, e, v.show()));
                    }
                }
                Ok(())
            })?;
            s.check(k, site, rule, bad.is_none(), || bad.clone().unwrap_or_default());
            Ok(())
        })?;
        for (m, es) in [("exp_u32", vec![0u64, 1, 2, 3, 31, 65_537, 1 << 31, u32::MAX as u64]), ("exp_usize", vec![0u64, 1, 2, 5, 65_537, 1 << 32, 1 << 63, u64::MAX])] {
            self.fo_unit(m, m, t, |s, k, site, d, ga| {
                let mut bad = None;
                s.fo_scope(&[m], |s| {
                    let x = s.atoms_named(fid, "x", 1)[0].clone();
                    for e in es {
                        s.it.reset_path();
                        let v = s.call(d, ga, vec![ptr_to(V::F(x.clone())), V::Int(e as u128)])?.poly()?;
                        let w = s.it.pow_const(&x, &e.into());
                        if !v.sub(&w).is_zero() {
                            bad = Some(format!("x^{} is {}", e, v.show()));
                        }
                    }
                    Ok(())
                })?;
                s.check(k, site, rule, bad.is_none(), || bad.clone().unwrap_or_default());
                Ok(())
            })?;
        }
        self.fo_unit("cube", "cube", t, |s, k, site, d, ga| {
            s.fo_scope(&[], |s| {
                let x = s.atoms_named(fid, "x", 1)[0].clone();
                let v = s.call(d, ga, vec![ptr_to(V::F(x.clone()))])?.poly()?;
                s.check(k, site, rule, v.sub(&x.pow(3)).is_zero(), || v.show());
                Ok(())
            })
        })
    }
    fn field_roots(&mut self, t: Ty<'tcx>, fid: FieldId) -> R<()> {
        let p = field_p(fid);
        let m1 = &p - 1u32;
        // k-th roots
        for m in ["kth_root", "kth_root_u32"] {
            self.fo_unit(m, m, t, |s, k, site, d, ga| {
                let mut bad = None;
                s.fo_scope(&["kth_root", "kth_root_u32"], |s| {
                    let x = s.atoms_named(fid, "x", 1)[0].clone();
                    for r in [1u32, 3, 5, 7, 9, 11, 13, 17, 19, 23, 25, 29, 31, 35, 37, 101, 257] {
                        let Some(e) = modinv(&r.into(), &m1) else { continue };
                        s.it.reset_path();
                        let a = if m == "kth_root" { V::F(Poly::constant(fid, r.into())) } else { V::Int(r as u128) };
                        let v = s.call(d, ga, vec![ptr_to(V::F(x.clone())), a])?.poly()?;
                        if v.sub(&s.it.pow_const(&x, &e)).is_zero() {
                            continue;
                        }
                        // some other power, or something else altogether
                        let got = match v.as_atom().map(term) {
                            Some(Term::App(o, _)) => o.strip_prefix("pow").and_then(|x| x.parse::<BigUint>().ok()),
                            _ => (0u64..65).find(|i| v.sub(&x.pow(*i)).is_zero()).map(BigUint::from),
                        };
                        match got {
                            Some(g) if (&g * r) % &m1 != BigUint::one() => bad = Some(format!("the {}-th root of x is given as x^{}", r, g)),
                            Some(_) => {}
                            None => return unsup("root not given as a power"),
                        }
                    }
                    Ok(())
                })?;
                s.check(k, site, "the k-th power of the k-th root is the element", bad.is_none(), || bad.clone().unwrap_or_default());
                Ok(())
            })?;
        }
        // quadratic residues and square roots: base of odd order, times a power of a root of unity
        let g = self.fconst(t, "MULTIPLICATIVE_SUBGROUP_GENERATOR")?;
        let s2 = m1.trailing_zeros().unwrap_or(0) as usize;
        let odd: BigUint = &m1 >> s2;
        let dom = Dom { fid, p: p.clone(), order: odd.clone(), two: BigUint::one() << s2, s: s2, zeta: g.modpow(&odd, &p) };
        let mut cs: Vec<BigUint> = vec![BigUint::zero()];
        for i in 0..s2 {
            for k in [1u32, 3, 5] {
                cs.push((BigUint::from(k) << i) % &dom.two);
            }
            cs.push((BigUint::one() << i) - 1u32);
        }
        let mut x = 0x2545f4914f6cdd1du64;
        for _ in 0..24 {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            cs.push(BigUint::from(x >> 8) % &dom.two);
        }
        cs.sort();
        cs.dedup();
        self.fo_unit("is_quadratic_residue", "is_quadratic_residue", t, |s, k, site, d, ga| {
            let mut bad = None;
            s.log_scope(&dom, t, true, |s| {
                for c in &cs {
                    s.it.reset_path();
                    let x = dom.val(&Lg { n: BigUint::one(), c: c.clone() }, t);
                    let want = !c.bit(0);
                    match s.call(d, ga, vec![ptr_to(x)]) {
                        Ok(v) if (v.int()? == 1) == want => {}
                        Ok(_) => bad = Some(format!("wrong for elements of odd order times z^{}", c)),
                        Err(Stop::Panic(m)) => bad = Some(format!("panics ({}) for elements of odd order times z^{}", m, c)),
                        Err(e) => return Err(e),
                    }
                }
                s.it.reset_path();
                let v = s.call(d, ga, vec![ptr_to(V::F(Poly::zero(fid)))])?.int()?;
                if v != 1 {
                    bad = Some("zero is a square".into());
                }
                Ok(())
            })?;
            s.check(k, site, "an element is reported to be a square exactly when it is one", bad.is_none(), || bad.clone().unwrap_or_default());
            Ok(())
        })?;
        self.fo_unit("square_root", "square_root", t, |s, k, site, d, ga| {
            let mut bad = None;
            let some = |v: &V<'tcx>| if let V::Adt(a) = v { Some((a.variant == 1, a.f.first().cloned())) } else { None };
            s.log_scope(&dom, t, true, |s| {
                for c in &cs {
                    s.it.reset_path();
                    let x = Lg { n: BigUint::one(), c: c.clone() };
                    let xv = dom.val(&x, t);
                    let v = match s.call(d, ga, vec![ptr_to(xv)]) {
                        Err(Stop::Panic(m)) => {
                            bad = Some(format!("panics ({}) for elements of odd order times z^{}", m, c));
                            continue;
                        }
                        v => v?,
                    };
                    let v = s.it.deref_all(&v)?;
                    let Some((present, val)) = some(&v) else { return unsup("result of square_root") };
                    if present == c.bit(0) {
                        bad = Some(format!("presence of a root is {} for elements of odd order times z^{}", present, c));
                        continue;
                    }
                    if let Some(r) = val {
                        let Some(e) = dom.parse(&mut s.it, &r)? else { return unsup("result of square_root") };
                        let r = dom.lg(&e)?;
                        if dom.pow(&r, &2u32.into()) != x {
                            bad = Some(format!("the square of the root is x^{} z^{} instead of x z^{}", &r.n * 2u32 % &odd, &r.c * 2u32 % &dom.two, c));
                        }
                    }
                }
                s.it.reset_path();
                let v = s.call(d, ga, vec![ptr_to(V::F(Poly::zero(fid)))])?;
                let v = s.it.deref_all(&v)?;
                let ok = match some(&v) {
                    Some((true, Some(r))) => matches!(dom.parse(&mut s.it, &r)?, Some(El::C(c)) if c.is_zero()),
                    _ => false,
                };
                if !ok {
                    bad = Some("the root of zero is not zero".into());
                }
                Ok(())
            })?;
            s.check(k, site, "squares have a root, whose square is the element; non-squares have none", bad.is_none(), || bad.clone().unwrap_or_default());
            Ok(())
        })?;
        self.fo_unit("primitive_root_of_unity", "primitive_root_of_unity", t, |s, k, site, d, ga| {
            let mut bad = None;
            s.fo_scope(&[], |s| {
                let one = BigUint::one();
                for n in 0..=s2 {
                    s.it.reset_path();
                    let v = s.call(d, ga, vec![V::Int(n as u128)])?.poly()?;
                    let Some(c) = v.as_const() else { return unsup("root of unity") };
                    if c.modpow(&(&one << n), &p) != one || (n > 0 && c.modpow(&(&one << (n - 1)), &p) == one) {
                        bad = Some(format!("order of the root for 2^{} is wrong", n));
                    }
                }
                s.it.reset_path();
                match s.call(d, ga, vec![V::Int(s2 as u128 + 1)]) {
                    Err(Stop::Panic(_)) => {}
                    Err(e) => return Err(e),
                    Ok(_) => bad = Some("a root of unity of an order that does not divide that of the group".into()),
                }
                Ok(())
            })?;
            s.check(k, site, "primitive_root_of_unity(n) has order exactly 2^n", bad.is_none(), || bad.clone().unwrap_or_default());
            Ok(())
        })
    }
    fn field_lists(&mut self, t: Ty<'tcx>, fid: FieldId) -> R<()> {
        let zero = |s: &mut Self, p: &Poly| matches!(s.it.field_eq(p, &Poly::zero(fid)), V::Int(1));
        let inverse = |p: &Poly, q: &Poly| p.mul(q).sub(&Poly::one(fid)).is_zero();
        let list = |l: &[Poly]| sref(l.iter().map(|p| V::F(p.clone())).collect());
        let report = |s: &mut Self, k: &str, site: &str, rule: &str, bad: Option<String>| s.check(k, site, rule, bad.is_none(), || bad.clone().unwrap_or_default());
        self.fo_unit("multiplicative_inverse", "multiplicative_inverse", t, |s, k, site, d, ga| {
            let mut bad = None;
            s.fo_scope(&[], |s| {
                let x = s.atoms_named(fid, "x", 1)[0].clone();
                let ps = s.paths(50, |s| {
                    let v = s.call(d, ga, vec![ptr_to(V::F(x.clone()))])?;
                    let v = s.it.deref_all(&v)?;
                    let V::Adt(a) = &v else { return unsup("option") };
                    Ok(match a.f.first() {
                        None if zero(s, &x) => None,
                        None => Some("no inverse of an element that may be nonzero".to_string()),
                        Some(v) => {
                            let v = v.poly()?;
                            if zero(s, &x) {
                                Some("an inverse of zero".into())
                            } else if !inverse(&v, &x) {
                                Some(v.show())
                            } else {
                                None
                            }
                        }
                    })
                })?;
                for q in ps {
                    match q.r {
                        Err(Stop::Panic(m)) => bad = Some(format!("panics: {}", m)),
                        r => bad = r?.or(bad.take()),
                    }
                }
                Ok(())
            })?;
            report(s, k, site, "the inverse of an element, or nothing for zero", bad);
            Ok(())
        })?;
        for m in ["batch_multiplicative_inverse", "batch_multiplicative_inverse_opt"] {
            self.fo_unit(m, m, t, |s, k, site, d, _| {
                let ga = s.tcx.mk_args(&[t.into(), t.into()]);
                let mut bad = None;
                s.fo_scope(&[], |s| {
                    for n in 0..=4usize {
                        let xs = s.atoms_named(fid, "x", n);
                        let ps = s.paths(400, |s| {
                            let r = s.call(d, ga, vec![list(&xs)]);
                            let prod = xs.iter().fold(Poly::one(fid), |a, b| a.mul(b));
                            let r = match r {
                                Err(Stop::Panic(_)) if m == "batch_multiplicative_inverse" && zero(s, &prod) => return Ok(None),
                                Err(Stop::Panic(e)) => return Ok(Some(format!("panics on {} elements: {}", n, e))),
                                r => r?,
                            };
                            let r = s.it.seq_items(&r)?;
                            if r.len() != n {
                                return Ok(Some(format!("{} inverses of {} elements", r.len(), n)));
                            }
                            for (v, x) in r.iter().zip(&xs) {
                                let v = s.it.deref_all(v)?;
                                let v = match &v {
                                    V::Adt(a) => match a.f.first() {
                                        None if zero(s, x) => continue,
                                        None => return Ok(Some("no inverse of an element that may be nonzero".into())),
                                        Some(v) => v.poly()?,
                                    },
                                    v => v.poly()?,
                                };
                                if !inverse(&v, x) {
                                    return Ok(Some(format!("the inverse of {} is given as {}", x.show(), v.show())));
                                }
                            }
                            Ok(None)
                        })?;
                        for q in ps {
                            bad = q.r?.or(bad.take());
                        }
                    }
                    Ok(())
                })?;
                report(s, k, site, "every element's inverse, in order; none for zero", bad);
                Ok(())
            })?;
        }
        for m in ["inner_product", "add_slices", "scale_slice"] {
            self.fo_unit(m, m, t, |s, k, site, d, ga| {
                let mut bad = None;
                s.fo_scope(&[], |s| {
                    for n in 0..=4usize {
                        for l in 0..=4usize {
                            let (a, b) = (s.atoms_named(fid, "a", n), s.atoms_named(fid, "b", l));
                            if m == "scale_slice" && l != 1 {
                                continue;
                            }
                            s.it.reset_path();
                            let args = if m == "scale_slice" { vec![ptr_to(V::F(b[0].clone())), list(&a)] } else { vec![list(&a), list(&b)] };
                            let r = match s.call(d, ga, args) {
                                Err(Stop::Panic(_)) if n != l && m != "scale_slice" => continue,
                                Err(Stop::Panic(e)) => {
                                    bad = Some(format!("panics: {}", e));
                                    continue;
                                }
                                r => r?,
                            };
                            if n != l && m != "scale_slice" {
                                bad = Some(format!("lists of {} and {} elements are accepted", n, l));
                                continue;
                            }
                            let ok = if m == "inner_product" {
                                let w = a.iter().zip(&b).fold(Poly::zero(fid), |x, (y, z)| x.add(&y.mul(z)));
                                r.poly()?.sub(&w).is_zero()
                            } else {
                                let r = s.polys_of(&r)?;
                                r.len() == n && (0..n).all(|i| r[i].sub(&if m == "add_slices" { a[i].add(&b[i]) } else { a[i].mul(&b[0]) }).is_zero())
                            };
                            if !ok {
                                bad = Some(format!("wrong for {} elements", n));
                            }
                        }
                    }
                    Ok(())
                })?;
                report(s, k, site, "the operation is applied to every pair of elements", bad);
                Ok(())
            })?;
        }
        self.fo_unit("cyclic_subgroup_known_order", "cyclic_subgroup_known_order", t, |s, k, site, d, ga| {
            let mut bad = None;
            s.fo_scope(&[], |s| {
                let g = s.atoms_named(fid, "g", 1)[0].clone();
                for n in 0..=9usize {
                    s.it.reset_path();
                    let r = s.call(d, ga, vec![V::F(g.clone()), V::Int(n as u128)])?;
                    let r = s.polys_of(&r)?;
                    if r.len() != n || (0..n).any(|i| !r[i].sub(&g.pow(i as u64)).is_zero()) {
                        bad = Some(format!("wrong powers for order {}", n));
                    }
                }
                Ok(())
            })?;
            report(s, k, site, "the powers of the generator in order, from one", bad);
            Ok(())
        })?;
        let p = field_p(fid);
        let s2 = (&p - 1u32).trailing_zeros().unwrap_or(0) as usize;
        let g = self.fconst(t, "MULTIPLICATIVE_SUBGROUP_GENERATOR")?;
        for m in ["cyclic_subgroup_unknown_order", "generator_order"] {
            self.fo_unit(m, m, t, |s, k, site, d, ga| {
                let mut bad = None;
                s.fo_scope(&[], |s| {
                    let mut orders: Vec<u64> = (0..=5.min(s2)).map(|i| 1u64 << i).collect();
                    let m1 = &p - 1u32;
                    for q in [3u32, 5, 6, 7, 12] {
                        if (&m1 % q).is_zero() {
                            orders.push(q as u64);
                        }
                    }
                    for o in orders {
                        let gen = g.modpow(&(&m1 / o), &p);
                        let o = (1..=o).find(|i| gen.modpow(&BigUint::from(*i), &p).is_one()).unwrap_or(o);
                        s.it.reset_path();
                        let r = s.call(d, ga, vec![V::F(Poly::constant(fid, gen.clone()))])?;
                        let ok = if m == "generator_order" {
                            r.int()?.to_u64() == Some(o)
                        } else {
                            let r = s.polys_of(&r)?;
                            r.len() == o as usize && r.iter().enumerate().all(|(i, x)| x.as_const() == Some(gen.modpow(&BigUint::from(i), &p)))
                        };
                        if !ok {
                            bad = Some(format!("wrong for a generator of order {}", o));
                        }
                    }
                    Ok(())
                })?;
                report(s, k, site, "the powers of the generator, each once, from one", bad);
                Ok(())
            })?;
        }
        Ok(())
    }
}
