//! Constants: every field, curve, coset and mixing-matrix constant of the current tree, read through the
//! compiler's evaluated constants, against number theory done here in big integers.
use crate::base::*;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rustc_middle::ty::Ty;

pub fn is_prime(n: &BigUint) -> bool {
    let small: [u32; 24] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89];
    let one = BigUint::one();
    if *n < BigUint::from(2u32) {
        return false;
    }
    for p in small {
        let p = BigUint::from(p);
        if *n == p {
            return true;
        }
        if (n % &p).is_zero() {
            return false;
        }
    }
    let m = n - &one;
    let s = m.trailing_zeros().unwrap();
    let d = &m >> s;
    'a: for p in small {
        let mut x = BigUint::from(p).modpow(&d, n);
        if x == one || x == m {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == m {
                continue 'a;
            }
        }
        return false;
    }
    true
}
fn gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
pub fn minv(a: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(&(p - 2u32), p)
}
type Ap = Option<(BigUint, BigUint)>;
fn ec_add(a: &BigUint, p: &BigUint, l: &Ap, r: &Ap) -> Ap {
    let (Some((x1, y1)), Some((x2, y2))) = (l, r) else { return if l.is_none() { r.clone() } else { l.clone() } };
    let m = if x1 == x2 {
        if ((y1 + y2) % p).is_zero() {
            return None;
        }
        (x1 * x1 * 3u32 + a) * minv(&(y1 * 2u32 % p), p) % p
    } else {
        (y2 + p - y1) * minv(&((x2 + p - x1) % p), p) % p
    };
    let x3 = (&m * &m + p + p - x1 - x2) % p;
    let y3 = (&m * (x1 + p - &x3) + p - y1) % p;
    Some((x3, y3))
}
fn ec_mul(a: &BigUint, p: &BigUint, k: &BigUint, g: &Ap) -> Ap {
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = ec_add(a, p, &r, &r);
        if k.bit(i) {
            r = ec_add(a, p, &r, g);
        }
    }
    r
}

impl<'tcx> Ctx<'tcx> {
    pub fn fconst(&mut self, t: Ty<'tcx>, n: &str) -> R<BigUint> {
        let v = self.it.assoc_const_of(t, n)?;
        let v = self.it.deref_all(&v)?;
        match v.poly()?.as_const() {
            Some(c) => Ok(c),
            None => unsup(format!("{} is not a constant", n)),
        }
    }
    fn big_const(&mut self, t: Ty<'tcx>, n: &str) -> R<BigUint> {
        let v = self.it.assoc_const_of(t, n)?;
        let s = self.it.seq_items(&v)?;
        let mut l = vec![];
        for x in s.iter() {
            l.push(x.int()? as u64)
        }
        Ok(limbs_to_big(&l))
    }
    pub fn all_fields(&self) -> R<Vec<Ty<'tcx>>> {
        Ok(self.plain_implementors(self.find_trait("Field")?))
    }

    pub fn check_field_constants(&mut self) -> R<()> {
        for t in self.all_fields()? {
            let fnm = self.it.head(t);
            let site = match t.kind() {
                rustc_middle::ty::Adt(d, _) => self.site(d.did()),
                _ => String::new(),
            };
            let key = format!("{} constants", fnm);
            let (k2, s2) = (key.clone(), site.clone());
            self.unit(&key, &site, move |s| {
                let p = s.big_const(t, "ORDER")?;
                let nl = s.it.assoc_const_of(t, "ORDER").and_then(|v| s.it.seq_items(&v))?.len();
                let one = BigUint::one();
                let m1 = &p - &one;
                let rule = "the constant has the value its definition requires";
                let mut exp: Vec<(String, Option<BigUint>, BigUint)> = vec![];
                s.check(&format!("{} ORDER is prime", fnm), &s2, rule, is_prime(&p), || p.to_string());
                let r = (&one << (64 * nl)) % &p;
                let pw = |k: usize| (&one << (64 * nl * k)) % &p;
                for (n, want) in [("ORDER_X2", &p * 2u32), ("R", r.clone()), ("R2", pw(2)), ("R3", pw(3))] {
                    if let Ok(v) = s.big_const(t, n) {
                        exp.push((n.into(), Some(v), want));
                    }
                }
                // MU = -p^-1 mod 2^64
                if let Ok(v) = s.it.assoc_const_of(t, "MU").and_then(|v| v.int()) {
                    let w = &one << 64usize;
                    let ok = ((BigUint::from(v) * &p + &one) % &w).is_zero() && BigUint::from(v) < w;
                    s.check(&format!("{} MU", fnm), &s2, rule, ok, || format!("{} * ORDER + 1 is not a multiple of 2^64", v));
                }
                for (n, want) in [("ZERO", 0u32), ("ONE", 1), ("TWO", 2), ("THREE", 3), ("FOUR", 4), ("FIVE", 5)] {
                    exp.push((n.into(), Some(s.fconst(t, n)?), BigUint::from(want)));
                }
                exp.push(("NEG_ONE".into(), Some(s.fconst(t, "NEG_ONE")?), m1.clone()));
                exp.push(("BITS".into(), Some(s.it.assoc_const_of(t, "BITS")?.int()?.into()), p.bits().into()));
                exp.push(("BYTES".into(), Some(s.it.assoc_const_of(t, "BYTES")?.int()?.into()), (nl as u64 * 8).into()));
                let two_adic = s.it.assoc_const_of(t, "TWO_ADICITY")?.int()? as u64;
                let v2 = m1.trailing_zeros().unwrap();
                exp.push(("TWO_ADICITY".into(), Some(two_adic.into()), v2.into()));
                exp.push(("T".into(), Some(s.fconst(t, "T")?), &m1 >> v2));
                for (n, got, want) in exp {
                    let got = got.unwrap();
                    s.check(&format!("{} {}", fnm, n), &s2, rule, got == want, || format!("is {}, expected {}", got, want));
                }
                let g = s.fconst(t, "MULTIPLICATIVE_SUBGROUP_GENERATOR")?;
                s.check(
                    &format!("{} MULTIPLICATIVE_SUBGROUP_GENERATOR", fnm),
                    &s2,
                    "the generator is a quadratic non-residue, so the roots of unity derived from it have the full power-of-two order",
                    g.modpow(&(&m1 / 2u32), &p) == m1,
                    || format!("{} is a quadratic residue", g),
                );
                let al = s.fconst(t, "ALPHA")?;
                s.check(
                    &format!("{} ALPHA", fnm),
                    &s2,
                    "x^ALPHA is a permutation other than the identity",
                    al > one && gcd(&al, &m1).is_one(),
                    || format!("gcd({}, ORDER - 1) = {}", al, gcd(&al, &m1)),
                );
                let _ = &k2;
                Ok(())
            });
        }
        Ok(())
    }

    fn const_point(&mut self, v: &V<'tcx>) -> R<Ap> {
        let k = std::collections::HashMap::new();
        let v = self.it.deref_all(v)?;
        let p = match self.point_of(&v, &k)? {
            Some(p) => p,
            None => return unsup("z = 0"),
        };
        if p.inf {
            return Ok(None);
        }
        match (p.x.as_const(), p.y.as_const()) {
            (Some(x), Some(y)) => Ok(Some((x, y))),
            _ => unsup("symbolic constant point"),
        }
    }
    pub fn check_curve_constants(&mut self) -> R<()> {
        let halo = self.plain_implementors(self.find_trait("HaloCurve")?);
        for c in self.all_curves()? {
            let cn = self.it.head(c);
            let site = match c.kind() {
                rustc_middle::ty::Adt(d, _) => self.site(d.did()),
                _ => String::new(),
            };
            let key = format!("{} constants", cn);
            let s2 = site.clone();
            let is_halo = halo.contains(&c);
            self.unit(&key, &site, move |s| {
                let (bt, st) = (s.base(c)?, s.scalar(c)?);
                let (p, n) = (s.big_const(bt, "ORDER")?, s.big_const(st, "ORDER")?);
                let (a, b) = (s.fconst(c, "A")?, s.fconst(c, "B")?);
                let disc = (&a * &a * &a * 4u32 + &b * &b * 27u32) % &p;
                s.check(&format!("{} discriminant", cn), &s2, "the curve is nonsingular", !disc.is_zero(), || "4A^3 + 27B^2 = 0".into());
                let ga = s.it.assoc_const_of(c, "GENERATOR_AFFINE")?;
                let g = s.const_point(&ga)?;
                let gp = s.it.assoc_const_of(c, "GENERATOR_PROJECTIVE")?;
                let gpp = s.const_point(&gp)?;
                s.check(&format!("{} GENERATOR_PROJECTIVE", cn), &s2, "both generators are the same point", g == gpp, || format!("{:?} and {:?}", g, gpp));
                let on = match &g {
                    Some((x, y)) => (y * y) % &p == (x * x * x + &a * x + &b) % &p,
                    None => false,
                };
                s.check(&format!("{} GENERATOR_AFFINE on the curve", cn), &s2, "the generator is a finite point of the curve", on, || format!("{:?}", g));
                if on {
                    let o = ec_mul(&a, &p, &n, &g);
                    s.check(&format!("{} generator order", cn), &s2, "the scalar field's order annihilates the generator", o.is_none(), || format!("[n]G = {:?}", o));
                }
                if is_halo {
                    let (z, zs) = (s.fconst(c, "ZETA")?, s.fconst(c, "ZETA_SCALAR")?);
                    let three = BigUint::from(3u32);
                    s.check(&format!("{} ZETA", cn), &s2, "ZETA is a primitive cube root of unity of the base field", z.modpow(&three, &p).is_one() && !z.is_one(), || z.to_string());
                    s.check(&format!("{} ZETA_SCALAR", cn), &s2, "ZETA_SCALAR is a primitive cube root of unity of the scalar field", zs.modpow(&three, &n).is_one() && !zs.is_one(), || zs.to_string());
                    if let (true, Some((x, y))) = (on, &g) {
                        let phi = Some((x * &z % &p, y.clone()));
                        let want = ec_mul(&a, &p, &zs, &g);
                        s.check(&format!("{} endomorphism eigenvalue", cn), &s2, "multiplying x by ZETA is multiplication by ZETA_SCALAR", phi == want, || format!("phi(G) = {:?}, [ZETA_SCALAR]G = {:?}", phi, want));
                    }
                    // both combinations 2 zeta_scalar^i +- 1 used by signed endomorphism windows are nonzero
                }
                Ok(())
            });
        }
        // cycles: each halo curve has a partner whose scalar field is its base field and vice versa
        for &c in &halo {
            let cn = self.it.head(c);
            let ok = {
                let mut ok = false;
                for &d in &halo {
                    if self.scalar(c)? == self.base(d)? && self.base(c)? == self.scalar(d)? {
                        ok = true
                    }
                }
                ok
            };
            self.check(&format!("{} cycle", cn), &cn, "a partner curve with swapped base and scalar field exists", ok, || "no partner".into());
        }
        Ok(())
    }

    /// routed columns live in disjoint cosets, for every subgroup order the field supports
    pub fn check_cosets(&mut self) -> R<()> {
        let n = self.const_usize("NUM_ROUTED_WIRES")?;
        let d = self.find_fn("get_subgroup_shift")?;
        for t in self.all_fields()? {
            let key = format!("{} subgroup shifts", self.it.head(t));
            let site = self.site(d);
            let (k2, s2) = (key.clone(), site.clone());
            self.unit(&key, &site, move |s| {
                let p = s.big_const(t, "ORDER")?;
                let two_adic = (&p - 1u32).trailing_zeros().unwrap();
                let ga = s.tcx.mk_args(&[t.into()]);
                let e = BigUint::one() << two_adic;
                // two evaluations: the shifts must be a function of the column alone
                let mut k: Vec<Poly> = vec![];
                for i in 0..n {
                    let v = s.call(d, ga, vec![V::Int(i as u128)])?.poly()?;
                    let w = s.call(d, ga, vec![V::Int(i as u128)])?.poly()?;
                    s.check(&format!("{} shift {} determined", k2, i), &s2, "prover and verifier obtain the same shift", v.sub(&w).is_zero(), || format!("{} then {}", v.show(), w.show()));
                    s.check(&format!("{} shift {} nonzero", k2, i), &s2, "coset shifts are units", !v.is_zero(), || "zero".into());
                    k.push(v);
                }
                for i in 0..n {
                    for j in 0..i {
                        // a quotient that is a constant must lie outside the 2-power subgroup; a quotient of
                        // independent draws is outside it except with probability 2^TWO_ADICITY / |F|
                        let q = k[i].mul(&k[j].inv()).normalised();
                        let same = match q.as_const() {
                            Some(c) => c.modpow(&e, &p).is_one(),
                            None => false,
                        };
                        s.check(
                            &format!("{} {} and {}", k2, j, i),
                            &s2,
                            "two columns' cosets of every power-of-two subgroup are disjoint (independent generator draws, or constants whose quotient is outside it)",
                            !same,
                            || format!("shifts {} and {}", k[i].show(), k[j].show()),
                        );
                    }
                }
                Ok(())
            });
        }
        Ok(())
    }

    /// the mixing matrix is maximum-distance-separable: every square submatrix is invertible
    pub fn check_mds(&mut self) -> R<()> {
        let w = self.const_usize("RESCUE_SPONGE_WIDTH")?;
        let mm = self.find_fn("mds_matrix")?;
        let get = self.method("MdsMatrix", "get")?;
        let app = self.find_fn("apply_mds")?;
        for t in self.all_fields()? {
            let fnm = self.it.head(t);
            let site = self.site(mm);
            let s2 = site.clone();
            let f2 = fnm.clone();
            self.unit(&format!("{} mds", fnm), &site, move |s| {
                let ga = s.tcx.mk_args(&[t.into()]);
                let fid = match s.it.field_ty(t) {
                    Some(f) => f,
                    None => return unsup("field"),
                };
                let p = field_p(fid);
                let m = s.call(mm, ga, vec![V::Int(w as u128)])?;
                let mp = ptr_to(m);
                let mut mat = vec![];
                for r in 0..w {
                    let mut row = vec![];
                    for c in 0..w {
                        let v = s.call(get, ga, vec![mp.clone(), V::Int(r as u128), V::Int(c as u128)])?;
                        match v.poly()?.as_const() {
                            Some(c) => row.push(c),
                            None => return unsup("symbolic matrix entry"),
                        }
                    }
                    mat.push(row);
                }
                let mut n = 0;
                for rs in 1u32..(1 << w) {
                    for cs in 1u32..(1 << w) {
                        if rs.count_ones() != cs.count_ones() {
                            continue;
                        }
                        n += 1;
                        let sub: Vec<Vec<BigUint>> = (0..w).filter(|r| rs >> r & 1 == 1).map(|r| (0..w).filter(|c| cs >> c & 1 == 1).map(|c| mat[r][c].clone()).collect()).collect();
                        let dt = det(&sub, &p);
                        s.check(
                            &format!("{} minor rows {:04b} columns {:04b}", f2, rs, cs),
                            &s2,
                            "every square submatrix of the mixing matrix is invertible",
                            !dt.is_zero(),
                            || "determinant 0".into(),
                        );
                    }
                }
                let _ = n;
                // applying it is the matrix-vector product
                let x = fvec(fid, "x", w);
                let y = s.call(app, ga, vec![fseq(&x)])?;
                let y = s.it.seq_items(&y)?;
                let site = s.site(app);
                s.check(&format!("{} apply length", f2), &site, "the product has as many entries as the state", y.len() == w, || y.len().to_string());
                for r in 0..w.min(y.len()) {
                    let mut e = Poly::zero(fid);
                    for c in 0..w {
                        e = e.add(&x[c].scale(&mat[r][c]));
                    }
                    let g = y[r].poly()?;
                    let ok = g.sub(&e).is_zero();
                    s.check(&format!("{} apply row {}", f2, r), &site, "applying the matrix is the matrix-vector product with its entries", ok, || g.show());
                }
                Ok(())
            });
        }
        Ok(())
    }
}
fn det(m: &[Vec<BigUint>], p: &BigUint) -> BigUint {
    if m.len() == 1 {
        return m[0][0].clone() % p;
    }
    let mut r = BigUint::zero();
    for c in 0..m.len() {
        let sub: Vec<Vec<BigUint>> = m[1..].iter().map(|row| row.iter().enumerate().filter(|x| x.0 != c).map(|x| x.1.clone()).collect()).collect();
        let t = &m[0][c] * det(&sub, p) % p;
        r = if c % 2 == 0 { (r + t) % p } else { (r + p - t) % p };
    }
    r
}
