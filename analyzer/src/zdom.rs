//! Machine integers as integer polynomials: every word is a polynomial with integer coefficients over input atoms
//! and floor atoms (quotients by powers of two), with an interval.  Wrapping, carries, borrows, shifts and
//! comparisons introduce floor atoms whose weighted sums telescope, so that what limb arithmetic computes can be
//! compared with what it should compute as polynomials.
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use rustc_middle::mir;
use rustc_middle::ty::Ty;
use std::collections::{BTreeMap, HashMap};

pub type Iv = (BigInt, BigInt);
type Mono = Vec<u32>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct ZP {
    pub c: BigInt,
    pub t: BTreeMap<Mono, BigInt>,
}
impl ZP {
    pub fn int(c: impl Into<BigInt>) -> ZP {
        ZP { c: c.into(), t: BTreeMap::new() }
    }
    pub fn atom(a: u32) -> ZP {
        ZP { c: BigInt::zero(), t: [(vec![a], BigInt::one())].into_iter().collect() }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    fn put(&mut self, m: Mono, c: BigInt) {
        if c.is_zero() {
            return;
        }
        if m.is_empty() {
            self.c += c;
            return;
        }
        let e = self.t.entry(m.clone()).or_default();
        *e += c;
        if e.is_zero() {
            self.t.remove(&m);
        }
    }
    pub fn add(&self, o: &ZP) -> ZP {
        let mut r = self.clone();
        r.c += &o.c;
        for (m, c) in &o.t {
            r.put(m.clone(), c.clone());
        }
        r
    }
    pub fn scale(&self, k: &BigInt) -> ZP {
        if k.is_zero() {
            return ZP::default();
        }
        ZP { c: &self.c * k, t: self.t.iter().map(|(m, c)| (m.clone(), c * k)).collect() }
    }
    pub fn neg(&self) -> ZP {
        self.scale(&BigInt::from(-1))
    }
    pub fn sub(&self, o: &ZP) -> ZP {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &ZP) -> ZP {
        let mut r = ZP::int(&self.c * &o.c);
        for (m, c) in &self.t {
            r.put(m.clone(), c * &o.c);
            for (n, d) in &o.t {
                let mut k = m.clone();
                k.extend(n);
                k.sort_unstable();
                r.put(k, c * d);
            }
        }
        for (n, d) in &o.t {
            r.put(n.clone(), d * &self.c);
        }
        r
    }
    pub fn shl(&self, k: usize) -> ZP {
        self.scale(&(BigInt::one() << k))
    }
    pub fn divisible(&self, k: &BigInt) -> bool {
        (&self.c % k).is_zero() && self.t.values().all(|c| (c % k).is_zero())
    }
    /// value of a weighted sum of words
    pub fn weighted(l: &[ZP]) -> ZP {
        l.iter().enumerate().fold(ZP::default(), |a, (i, x)| a.add(&x.shl(64 * i)))
    }
}

#[derive(Clone)]
enum Def {
    Input,
    Floor(ZP, usize),
    Eq(ZP),
}
struct Atom {
    name: String,
    iv: Iv,
    iv0: Iv,
    def: Def,
}
/// Cutting the loops of a function with an invariant: the loop-carried words get arbitrary values that satisfy
/// it, and must satisfy it again when a loop head is reached once more.
#[derive(Clone, Default)]
pub struct Cut {
    pub def: Option<rustc_hir::def_id::DefId>,
    pub p: BigInt,
    pub a: ZP,
    /// locals holding u, v, b, c with b a = u and c a = v modulo p
    pub roles: Option<[usize; 4]>,
    /// the decisions before a loop head was first reached: what follows it is analysed there
    pub first: HashMap<mir::BasicBlock, Vec<usize>>,
    pub seen: usize,
}
#[derive(Default)]
pub struct Z {
    pub cut: Option<Cut>,
    /// products known modulo p: (x, a) -> value
    pub rels: Vec<(u32, u32, ZP)>,
    pub on: bool,
    /// code of another shape may be too costly to decide: it is then left undecided
    pub deadline: Option<std::time::Instant>,
    atoms: Vec<Atom>,
    fixed: HashMap<u32, BigInt>,
    floors: HashMap<(ZP, usize), u32>,
    eqs: HashMap<ZP, u32>,
    ids: HashMap<ZP, usize>,
    list: Vec<(ZP, Iv)>,
    /// intervals of non-constant parts of polynomials with first coefficient positive
    facts: BTreeMap<ZP, Iv>,
    /// the keys of facts by their last monomial
    index: HashMap<Mono, Vec<ZP>>,
    /// the same, as recorded: these are the path conditions
    pub asserted: Vec<(ZP, Option<BigInt>, Option<BigInt>, Option<BigInt>)>,
    /// bool -> the difference whose sign it is
    cmps: HashMap<ZP, ZP>,
    ne: Vec<ZP>,
    /// conditions of the code (such as the absence of overflow) that were not proved
    pub pending: Vec<(ZP, bool, String, usize)>,
}
pub const DEAD: &str = "infeasible path";

fn cap(a: &Iv, b: &Iv) -> Iv {
    ((&a.0).max(&b.0).clone(), (&a.1).min(&b.1).clone())
}
fn iv_mul(a: &Iv, b: &Iv) -> Iv {
    let v = [&a.0 * &b.0, &a.0 * &b.1, &a.1 * &b.0, &a.1 * &b.1];
    (v.iter().min().unwrap().clone(), v.iter().max().unwrap().clone())
}
fn iv_add(a: &Iv, b: &Iv) -> Iv {
    (&a.0 + &b.0, &a.1 + &b.1)
}
fn pow2(k: usize) -> BigInt {
    BigInt::one() << k
}

impl Z {
    pub fn reset(&mut self) {
        let (on, deadline) = (self.on, self.deadline);
        let cut = self.cut.take().map(|c| Cut { roles: None, seen: 0, ..c });
        *self = Z { on, deadline, cut, ..Z::default() };
    }
    pub fn input(&mut self, name: &str, lo: BigInt, hi: BigInt) -> ZP {
        self.atoms.push(Atom { name: name.into(), iv: (lo.clone(), hi.clone()), iv0: (lo, hi), def: Def::Input });
        ZP::atom(self.atoms.len() as u32 - 1)
    }
    /// drop what the path so far has shown
    fn forget(&mut self) {
        for a in &mut self.atoms {
            a.iv = a.iv0.clone();
        }
        self.fixed.clear();
        self.facts.clear();
        self.index.clear();
        self.cmps.clear();
        self.ne.clear();
        self.floors.clear();
        self.eqs.clear();
        self.ids.clear();
        for i in 0..self.list.len() {
            self.list[i].1 = self.natural(&self.list[i].0.clone());
        }
    }
    pub fn norm(&self, p: &ZP) -> ZP {
        if self.fixed.is_empty() || !p.t.keys().any(|m| m.iter().any(|a| self.fixed.contains_key(a))) {
            return p.clone();
        }
        let mut r = ZP::int(p.c.clone());
        for (m, c) in &p.t {
            let mut c = c.clone();
            let mut k = vec![];
            for a in m {
                match self.fixed.get(a) {
                    Some(v) => c *= v,
                    None => k.push(*a),
                }
            }
            r.put(k, c);
        }
        r
    }
    /// non-constant part divided by its content, first coefficient positive; the factor
    fn prim(p: &ZP) -> (ZP, BigInt) {
        let mut g = BigInt::zero();
        for c in p.t.values() {
            g = g.gcd(c);
        }
        if p.t.values().next().map(|c| c.is_negative()).unwrap_or(false) {
            g = -g;
        }
        (ZP { c: BigInt::zero(), t: p.t.iter().map(|(m, c)| (m.clone(), c / &g)).collect() }, g)
    }
    fn natural(&self, p: &ZP) -> Iv {
        let mut r = (p.c.clone(), p.c.clone());
        for (m, c) in &p.t {
            let mut i = (c.clone(), c.clone());
            let mut k = 0;
            while k < m.len() {
                let a = &self.atoms[m[k] as usize].iv;
                if k + 1 < m.len() && m[k + 1] == m[k] {
                    // a square
                    let s = iv_mul(a, a);
                    let lo = if a.0.is_negative() && a.1.is_positive() { BigInt::zero() } else { (&a.0 * &a.0).min(&a.1 * &a.1) };
                    i = iv_mul(&i, &(lo, s.1));
                    k += 2;
                } else {
                    i = iv_mul(&i, a);
                    k += 1;
                }
            }
            r = iv_add(&r, &i);
        }
        r
    }
    fn fact(&self, p: &ZP) -> Option<Iv> {
        if p.is_const() {
            return None;
        }
        let (q, g) = Self::prim(p);
        let f = self.facts.get(&q)?;
        Some(iv_add(&iv_mul(f, &(g.clone(), g)), &(p.c.clone(), p.c.clone())))
    }
    pub fn bound(&self, p: &ZP) -> Iv {
        self.bound_d(p, 3)
    }
    fn bound_d(&self, p: &ZP, depth: usize) -> Iv {
        let p = self.norm(p);
        let mut b = self.natural(&p);
        if p.is_const() {
            return b;
        }
        if let Some(f) = self.fact(&p) {
            b = cap(&b, &f);
        }
        if let Some(&i) = self.ids.get(&p) {
            b = cap(&b, &self.list[i].1);
        }
        if depth > 0 && b.0 != b.1 {
            for (m, d) in &p.t {
                let Some(l) = self.index.get(m) else { continue };
                for f in l {
                    let c = &f.t[m];
                    let (s, r) = d.div_rem(c);
                    if !r.is_zero() || s.is_zero() {
                        continue;
                    }
                    let rest = p.sub(&f.scale(&s));
                    if rest.t.len() > p.t.len() {
                        continue;
                    }
                    let n = self.bound_d(&rest, depth - 1);
                    let iv = &self.facts[f];
                    b = cap(&b, &iv_add(&n, &iv_mul(iv, &(s.clone(), s))));
                }
            }
        }
        for n in &self.ne {
            let n = self.norm(n);
            for (s, k) in [(p.sub(&n), 1), (p.add(&n), -1)] {
                let _ = k;
                if s.is_const() {
                    // p = s.c is excluded
                    if b.0 == s.c {
                        b.0 += 1;
                    }
                    if b.1 == s.c {
                        b.1 -= 1;
                    }
                }
            }
        }
        b
    }
    /// bound after replacing floor atoms, newest first, by the words they were split from
    pub fn bound_elim(&self, p: &ZP) -> Iv {
        let mut p = self.norm(p);
        let mut best = self.bound(&p);
        let mut extra = (BigInt::zero(), BigInt::zero());
        let mut s = 0usize;
        for _ in 0..400 {
            let Some(a) = p.t.keys().flat_map(|m| m.iter()).filter(|a| matches!(self.atoms[**a as usize].def, Def::Floor(..))).max().cloned() else { break };
            if p.t.keys().any(|m| m.len() > 1 && m.contains(&a)) {
                break;
            }
            let Def::Floor(b, k) = &self.atoms[a as usize].def else { break };
            let (b, k) = (self.norm(b), *k);
            if b.t.keys().flat_map(|m| m.iter()).any(|x| *x >= a) {
                break;
            }
            let mut c = p.t[&vec![a]].clone();
            let need = k.saturating_sub(c.trailing_zeros().unwrap_or(0) as usize);
            if need > 0 {
                p = p.shl(need);
                extra = (extra.0 << need, extra.1 << need);
                s += need;
                c <<= need;
            }
            let q = &c >> k;
            // p = (p + q (b - 2^k a)) - q w with w the low word in [0, 2^k - 1]
            let low = b.sub(&ZP::atom(a).shl(k));
            p = p.add(&low.scale(&q));
            let w = self.bound(&low);
            let w = cap(&w, &(BigInt::zero(), pow2(k) - 1));
            extra = iv_add(&extra, &iv_mul(&w, &(-q.clone(), -q)));
            let n = iv_add(&self.bound(&p), &extra);
            let d = pow2(s);
            best = cap(&best, &(n.0.div_ceil(&d), n.1.div_floor(&d)));
        }
        best
    }
    /// a multiple of p by a power of two times the polynomial, after replacing exact quotients by what they are
    /// quotients of and known products by their values?
    pub fn congruent_elim(&self, e: &ZP, p: &BigInt) -> bool {
        let mut e = self.norm(e);
        for _ in 0..400 {
            for (x, a, u) in &self.rels {
                let mut k = vec![*x, *a];
                k.sort_unstable();
                let mut r = ZP::int(e.c.clone());
                for (m, c) in &e.t {
                    let mut rest = m.clone();
                    let hit = k.iter().all(|y| match rest.iter().position(|z| z == y) {
                        Some(i) => {
                            rest.remove(i);
                            true
                        }
                        None => false,
                    });
                    if hit {
                        let mut f = ZP::default();
                        f.put(rest, c.clone());
                        r = r.add(&f.mul(&self.norm(u)));
                    } else {
                        r.put(m.clone(), c.clone());
                    }
                }
                e = r;
            }
            if e.divisible(p) {
                return true;
            }
            let mut at: Vec<u32> = e.t.keys().flat_map(|m| m.iter()).filter(|a| matches!(self.atoms[**a as usize].def, Def::Floor(..))).cloned().collect();
            at.sort_unstable();
            at.dedup();
            let mut done = true;
            for a in at.into_iter().rev() {
                let Def::Floor(b, k) = &self.atoms[a as usize].def else { continue };
                let low = self.norm(&b.sub(&ZP::atom(a).shl(*k)));
                let w = self.bound(&low);
                if w.0 != w.1 || e.t.keys().any(|m| m.iter().filter(|x| **x == a).count() > 1) {
                    continue;
                }
                let by = self.norm(&b.sub(&ZP::int(w.0)));
                let mut r = ZP::int(&e.c << *k);
                for (m, c) in &e.t {
                    if m.contains(&a) {
                        let rest: Mono = m.iter().filter(|x| **x != a).cloned().collect();
                        let mut f = ZP::default();
                        f.put(rest, c.clone());
                        r = r.add(&f.mul(&by));
                    } else {
                        r.put(m.clone(), c << *k);
                    }
                }
                e = r;
                done = false;
                break;
            }
            if done {
                return false;
            }
        }
        false
    }
    pub fn dead<T>() -> R<T> {
        unsup(DEAD)
    }
    /// record that p lies in the interval
    pub fn assume(&mut self, p: &ZP, lo: Option<BigInt>, hi: Option<BigInt>) -> R<()> {
        self.asserted.push((p.clone(), lo.clone(), hi.clone(), None));
        let b = self.bound(p);
        let lo = lo.unwrap_or(b.0);
        let hi = hi.unwrap_or(b.1);
        self.learn(p, &(lo, hi), 0)
    }
    /// a consequence of what is already recorded
    pub fn derive(&mut self, p: &ZP, iv: &Iv) -> R<()> {
        self.learn(p, iv, 0)
    }
    fn put_fact(&mut self, q: &ZP, f: Iv) {
        if self.facts.insert(q.clone(), f).is_none() {
            if let Some(m) = q.t.keys().next_back() {
                self.index.entry(m.clone()).or_default().push(q.clone());
            }
        }
    }
    fn learn(&mut self, p: &ZP, iv: &Iv, depth: usize) -> R<()> {
        let p = self.norm(p);
        let old = self.bound(&p);
        let iv = cap(iv, &old);
        if iv.0 > iv.1 {
            return Self::dead();
        }
        if p.is_const() || (depth > 0 && iv == old && self.fact(&p) == Some(iv.clone())) {
            return Ok(());
        }
        let (q, g) = Self::prim(&p);
        let lo = (&iv.0 - &p.c, &iv.1 - &p.c);
        let (a, b) = if g.is_negative() { (&lo.1, &lo.0) } else { (&lo.0, &lo.1) };
        let f = (a.div_ceil(&g), b.div_floor(&g));
        let f = match self.facts.get(&q) {
            Some(o) => cap(o, &f),
            None => f,
        };
        if f.0 > f.1 {
            return Self::dead();
        }
        self.put_fact(&q, f.clone());
        if depth > 6 {
            return Ok(());
        }
        // tighten linear atoms
        let q2 = q.clone();
        for (m, c) in &q2.t {
            if m.len() != 1 || self.fixed.contains_key(&m[0]) {
                continue;
            }
            let a = m[0];
            if q2.t.keys().any(|k| k.len() > 1 && k.contains(&a)) {
                continue;
            }
            let mut rest = q2.clone();
            rest.t.remove(m);
            let r = self.natural(&rest);
            let v = (&f.0 - &r.1, &f.1 - &r.0);
            let (x, y) = if c.is_negative() { (&v.1, &v.0) } else { (&v.0, &v.1) };
            let v = (x.div_ceil(c), y.div_floor(c));
            self.tighten(a, &v, depth)?;
        }
        Ok(())
    }
    fn tighten(&mut self, a: u32, v: &Iv, depth: usize) -> R<()> {
        let old = self.atoms[a as usize].iv.clone();
        let n = cap(&old, v);
        if n.0 > n.1 {
            return Self::dead();
        }
        if n == old {
            return Ok(());
        }
        self.atoms[a as usize].iv = n.clone();
        let def = self.atoms[a as usize].def.clone();
        if n.0 == n.1 {
            self.fixed.insert(a, n.0.clone());
            let fs: Vec<(ZP, Iv)> = std::mem::take(&mut self.facts).into_iter().collect();
            self.index.clear();
            let mut more = vec![];
            for (p, iv) in fs {
                let p = self.norm(&p);
                if p.is_const() {
                    if p.c < iv.0 || p.c > iv.1 {
                        return Self::dead();
                    }
                    continue;
                }
                let (q, g) = Self::prim(&p);
                let lo = (&iv.0 - &p.c, &iv.1 - &p.c);
                let (x, y) = if g.is_negative() { (&lo.1, &lo.0) } else { (&lo.0, &lo.1) };
                let mut f = (x.div_ceil(&g), y.div_floor(&g));
                if let Some(o) = self.facts.get(&q) {
                    f = cap(o, &f);
                }
                if f.0 > f.1 {
                    return Self::dead();
                }
                if q.t.len() == 1 && q.t.keys().next().unwrap().len() == 1 {
                    let x = q.t.keys().next().unwrap()[0];
                    more.push((x, f.clone()));
                }
                self.put_fact(&q, f);
            }
            for (x, f) in more {
                self.tighten(x, &f, depth + 1)?;
            }
        }
        match def {
            Def::Floor(b, k) => {
                let iv = (&n.0 << k, ((&n.1 + 1) << k) - 1);
                self.learn(&b, &iv, depth + 1)?;
            }
            Def::Eq(d) if n.0 == n.1 => {
                if n.0.is_one() {
                    self.learn(&d, &(BigInt::zero(), BigInt::zero()), depth + 1)?;
                } else {
                    let b = self.bound(&d);
                    if b.0.is_zero() && b.1.is_zero() {
                        return Self::dead();
                    }
                    self.ne.push(d.clone());
                    let b = self.bound(&d);
                    self.learn(&d, &b, depth + 1)?;
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// (p mod 2^k, floor(p / 2^k)), each with an interval
    pub fn divmod(&mut self, p: &ZP, iv: &Iv, k: usize) -> ((ZP, Iv), (ZP, Iv)) {
        let p = self.norm(p);
        let iv = cap(iv, &self.bound(&p));
        let m = pow2(k);
        let zero = (ZP::default(), (BigInt::zero(), BigInt::zero()));
        if !iv.0.is_negative() && iv.1 < m {
            return ((p, iv), zero);
        }
        let hiv = (iv.0.div_floor(&m), iv.1.div_floor(&m));
        if hiv.0 == hiv.1 {
            let low = p.sub(&ZP::int(&hiv.0 * &m));
            let b = (&iv.0 - &hiv.0 * &m, &iv.1 - &hiv.0 * &m);
            return ((low, b), (ZP::int(hiv.0.clone()), hiv));
        }
        let half = &m >> 1;
        let mut a = ZP::default();
        let mut b = ZP::default();
        let split = |c: &BigInt| {
            let mut r = c.mod_floor(&m);
            if r > half {
                r -= &m;
            }
            let q = (c - &r) >> k;
            (q, r)
        };
        let (q, r) = split(&p.c);
        a.c = q;
        b.c = r;
        for (mo, c) in &p.t {
            let (q, r) = split(c);
            a.put(mo.clone(), q);
            b.put(mo.clone(), r);
        }
        if !b.is_const() {
            // what known equalities say about the residue
            for (q, v) in &self.facts {
                if v.0 != v.1 || b.is_const() {
                    continue;
                }
                for (mo, c) in &q.t {
                    let Some(e) = b.t.get(mo) else { continue };
                    if !c.abs().is_one() || mo.len() != 1 {
                        continue;
                    }
                    let s = e * c;
                    let mut w = b.sub(&q.scale(&s));
                    w.c += &s * &v.0;
                    let (mut a2, mut b2) = (a.clone(), ZP::default());
                    let (q0, r0) = split(&w.c);
                    a2.c += q0;
                    b2.c = r0;
                    for (mo, c) in &w.t {
                        let (q, r) = split(c);
                        a2.put(mo.clone(), q);
                        b2.put(mo.clone(), r);
                    }
                    if b2.is_const() {
                        a = a2;
                        b = b2;
                        break;
                    }
                }
            }
        }
        if b.is_const() {
            if b.c.is_negative() {
                b.c += &m;
                a.c -= 1;
            }
            let v = b.c.clone();
            return ((b, (v.clone(), v)), (a, hiv));
        }
        let h = self.floor(&b, k);
        let low = b.sub(&h.shl(k));
        let high = a.add(&h);
        let low = self.norm(&low);
        let high = self.norm(&high);
        let liv = cap(&self.bound(&low), &(BigInt::zero(), &m - 1));
        let hiv = cap(&hiv, &self.bound(&high));
        ((low, liv), (high, hiv))
    }
    /// floor(b / 2^k)
    fn floor(&mut self, b: &ZP, k: usize) -> ZP {
        let mut b = b.clone();
        let mut k = k;
        // common powers of two
        let e = b.t.values().map(|c| c.trailing_zeros().unwrap_or(0) as usize).min().unwrap_or(0);
        if e > 0 {
            let e = e.min(k);
            b = ZP { c: b.c.div_floor(&pow2(e)), t: b.t.into_iter().map(|(m, c)| (m, c >> e)).collect() };
            k -= e;
            if k == 0 {
                return b;
            }
        }
        // nested quotients
        if b.c.is_zero() && b.t.len() == 1 {
            let (m, c) = b.t.iter().next().unwrap();
            if m.len() == 1 && c.is_one() {
                if let Def::Floor(b2, k2) = &self.atoms[m[0] as usize].def {
                    let (b2, k2) = (b2.clone(), *k2);
                    return self.floor(&b2, k2 + k);
                }
            }
        }
        let bb = self.bound(&b);
        let m = pow2(k);
        let iv = (bb.0.div_floor(&m), bb.1.div_floor(&m));
        if iv.0 == iv.1 {
            return ZP::int(iv.0);
        }
        if let Some(&a) = self.floors.get(&(b.clone(), k)) {
            return match self.fixed.get(&a) {
                Some(v) => ZP::int(v.clone()),
                None => ZP::atom(a),
            };
        }
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom { name: format!("⌊·/2^{}⌋{}", k, a), iv: iv.clone(), iv0: iv, def: Def::Floor(b.clone(), k) });
        self.floors.insert((b, k), a);
        ZP::atom(a)
    }
    fn eq_atom(&mut self, d: &ZP) -> ZP {
        let (q, g) = Self::prim(d);
        let c = &d.c / &g;
        let mut k = q;
        k.c = if (&d.c % &g).is_zero() { c } else { return ZP::int(0) };
        if let Some(&a) = self.eqs.get(&k) {
            return self.norm(&ZP::atom(a));
        }
        let a = self.atoms.len() as u32;
        self.atoms.push(Atom { name: format!("[·=0]{}", a), iv: (BigInt::zero(), BigInt::one()), iv0: (BigInt::zero(), BigInt::one()), def: Def::Eq(k.clone()) });
        self.eqs.insert(k, a);
        ZP::atom(a)
    }
    /// numerical value of every atom, given the inputs
    pub fn eval_atoms(&self, inputs: &HashMap<String, BigInt>) -> Option<Vec<BigInt>> {
        let mut v: Vec<BigInt> = vec![];
        for a in &self.atoms {
            let x = match &a.def {
                Def::Input => inputs.get(&a.name)?.clone(),
                Def::Floor(b, k) => self.eval(b, &v).div_floor(&pow2(*k)),
                Def::Eq(d) => BigInt::from(self.eval(d, &v).is_zero() as u8),
            };
            v.push(x);
        }
        Some(v)
    }
    pub fn eval(&self, p: &ZP, v: &[BigInt]) -> BigInt {
        let mut r = p.c.clone();
        for (m, c) in &p.t {
            let mut x = c.clone();
            for a in m {
                x *= &v[*a as usize];
            }
            r += x;
        }
        r
    }
    /// the recorded path conditions hold at the point
    pub fn holds(&self, v: &[BigInt], n: usize) -> bool {
        self.asserted.iter().take(n).all(|(p, lo, hi, ne)| {
            let x = self.eval(p, v);
            lo.as_ref().map(|l| x >= *l).unwrap_or(true) && hi.as_ref().map(|h| x <= *h).unwrap_or(true) && ne.as_ref().map(|n| x != *n).unwrap_or(true)
        })
    }
    pub fn show(&self, p: &ZP) -> String {
        let mut s: Vec<String> = p.t.iter().take(6).map(|(m, c)| format!("{}·{}", c, m.iter().map(|a| self.atoms[*a as usize].name.clone()).collect::<Vec<_>>().join("·"))).collect();
        s.push(p.c.to_string());
        s.join(" + ")
    }
}

impl<'tcx> Interp<'tcx> {
    pub fn z_get(&self, v: &V<'tcx>) -> Option<(ZP, Iv)> {
        match v {
            V::Int(i) => {
                let c = BigInt::from(*i);
                Some((ZP::int(c.clone()), (c.clone(), c)))
            }
            V::Sym(t, _) => {
                if let Term::App(op, a) = term(*t) {
                    if op == "z" {
                        if let Term::Int(i) = term(a[0]) {
                            let (p, iv) = &self.z.list[i as usize];
                            let q = self.z.norm(p);
                            let iv = cap(iv, &self.z.bound(&q));
                            return Some((q, iv));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    pub fn is_z(&self, v: &V<'tcx>) -> bool {
        matches!(v, V::Sym(t, _) if matches!(term(*t), Term::App(op, _) if op == "z"))
    }
    pub fn z_val(&mut self, p: ZP, iv: Iv, ty: Ty<'tcx>) -> V<'tcx> {
        let p = self.z.norm(&p);
        if p.is_const() {
            let bits = self.int_bits(ty).0 as usize;
            let c = p.c.mod_floor(&pow2(bits));
            return V::Int(c.to_biguint().and_then(|b| num_traits::ToPrimitive::to_u128(&b)).unwrap_or(0));
        }
        let iv = cap(&iv, &self.z.bound(&p));
        let i = match self.z.ids.get(&p) {
            Some(&i) => {
                self.z.list[i].1 = cap(&self.z.list[i].1, &iv);
                i
            }
            None => {
                let nat = self.z.natural(&p);
                if iv.0 > nat.0 || iv.1 < nat.1 {
                    let (q, g) = Z::prim(&p);
                    if self.z.fact(&p).map(|f| iv.0 > f.0 || iv.1 < f.1).unwrap_or(true) {
                        let lo = (&iv.0 - &p.c, &iv.1 - &p.c);
                        let (a, b) = if g.is_negative() { (&lo.1, &lo.0) } else { (&lo.0, &lo.1) };
                        self.z.put_fact(&q, (a.div_ceil(&g), b.div_floor(&g)));
                    }
                }
                self.z.list.push((p.clone(), iv));
                self.z.ids.insert(p, self.z.list.len() - 1);
                self.z.list.len() - 1
            }
        };
        V::Sym(app("z", vec![intern(Term::Int(i as u128))]), ty)
    }
    pub fn z_bool(&mut self, p: ZP) -> V<'tcx> {
        let b = self.tcx.types.bool;
        self.z_val(p, (BigInt::zero(), BigInt::one()), b)
    }
    /// p < 0 as a bool
    pub fn z_negative(&mut self, d: &ZP, iv: &Iv) -> V<'tcx> {
        let iv = cap(iv, &self.z.bound(d));
        if iv.1.is_negative() {
            return V::Int(1);
        }
        if !iv.0.is_negative() {
            return V::Int(0);
        }
        let big = (iv.0.abs()).max(iv.1.clone() + 1);
        let mut k = 64;
        while pow2(k) < big {
            k += 64;
        }
        let (_, (h, _)) = self.z.divmod(d, &iv, k);
        let p = h.neg();
        self.z.cmps.insert(p.clone(), d.clone());
        self.z_bool(p)
    }
    pub fn z_eq(&mut self, d: &ZP) -> V<'tcx> {
        let d = self.z.norm(d);
        let b = self.z.bound(&d);
        if b.0.is_zero() && b.1.is_zero() {
            return V::Int(1);
        }
        if b.0.is_positive() || b.1.is_negative() {
            return V::Int(0);
        }
        if !b.0.is_negative() && b.1.is_one() {
            return self.z_bool(ZP::int(1).sub(&d));
        }
        if b.0 == BigInt::from(-1) && b.1.is_zero() {
            return self.z_bool(ZP::int(1).add(&d));
        }
        let p = self.z.eq_atom(&d);
        self.z.cmps.remove(&p);
        self.z_bool(p)
    }
    /// wrap to the width of ty: value, and whether it overflowed
    fn z_wrap(&mut self, p: ZP, iv: Iv, ty: Ty<'tcx>) -> (V<'tcx>, V<'tcx>) {
        let bits = self.int_bits(ty).0 as usize;
        let ((l, li), (h, hi)) = self.z.divmod(&p, &iv, bits);
        let v = self.z_val(l, li, ty);
        let h = self.z.norm(&h);
        let hb = cap(&hi, &self.z.bound(&h));
        let o = if hb.0.is_zero() && hb.1.is_zero() {
            V::Int(0)
        } else if hb.0.is_positive() || hb.1.is_negative() {
            V::Int(1)
        } else if hb.0.is_zero() && hb.1.is_one() {
            self.z_bool(h)
        } else if hb.0 == BigInt::from(-1) && hb.1.is_zero() {
            self.z_bool(h.neg())
        } else {
            let e = self.z_eq(&h);
            match e {
                V::Int(i) => V::Int(1 - i),
                e => {
                    let (p, _) = self.z_get(&e).unwrap();
                    self.z_bool(ZP::int(1).sub(&p))
                }
            }
        };
        (v, o)
    }
    pub fn z_binop(&mut self, op: mir::BinOp, x: &V<'tcx>, y: &V<'tcx>, t: Ty<'tcx>, dt: Ty<'tcx>) -> R<V<'tcx>> {
        use mir::BinOp::*;
        let (Some((a, ai)), Some((b, bi))) = (self.z_get(x), self.z_get(y)) else { return unsup("machine integer") };
        if self.z.deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false) {
            return unsup("not decided within the time allowed");
        }
        if t.is_signed() {
            return unsup("signed arithmetic on symbolic integers");
        }
        let bits = self.int_bits(t).0 as usize;
        Ok(match op {
            Add | AddUnchecked | AddWithOverflow | Sub | SubUnchecked | SubWithOverflow | Mul | MulUnchecked | MulWithOverflow => {
                let (p, iv) = match op {
                    Add | AddUnchecked | AddWithOverflow => (a.add(&b), iv_add(&ai, &bi)),
                    Sub | SubUnchecked | SubWithOverflow => (a.sub(&b), (&ai.0 - &bi.1, &ai.1 - &bi.0)),
                    _ => (a.mul(&b), iv_mul(&ai, &bi)),
                };
                let (v, o) = self.z_wrap(p, iv, t);
                match op {
                    AddWithOverflow | SubWithOverflow | MulWithOverflow => adt(dt, 0, vec![v, o]),
                    _ => v,
                }
            }
            Lt => self.z_negative(&a.sub(&b), &(&ai.0 - &bi.1, &ai.1 - &bi.0)),
            Gt => self.z_negative(&b.sub(&a), &(&bi.0 - &ai.1, &bi.1 - &ai.0)),
            Le | Ge => {
                let v = if let Le = op { self.z_binop(Gt, x, y, t, dt)? } else { self.z_binop(Lt, x, y, t, dt)? };
                self.z_not(&v)?
            }
            Eq => self.z_eq(&a.sub(&b)),
            Ne => {
                let v = self.z_eq(&a.sub(&b));
                self.z_not(&v)?
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                if !b.is_const() {
                    return unsup("shift by a symbolic amount");
                }
                let k = num_traits::ToPrimitive::to_usize(&b.c).unwrap_or(0) % bits;
                if let Shl | ShlUnchecked = op {
                    let s = pow2(k);
                    let (v, _) = self.z_wrap(a.scale(&s), iv_mul(&ai, &(s.clone(), s)), t);
                    v
                } else {
                    let (_, (h, hi)) = self.z.divmod(&a, &ai, k);
                    self.z_val(h, hi, t)
                }
            }
            BitAnd => {
                if t.is_bool() {
                    if let Some(v) = self.z_minmax(&a, &b, true) {
                        return Ok(v);
                    }
                    let s = self.z.bound(&a.add(&b));
                    if s.1 <= BigInt::one() {
                        return Ok(V::Int(0));
                    }
                    return Ok(self.z_bool(a.mul(&b)));
                }
                let (p, pi, m) = if b.is_const() { (a, ai, b) } else if a.is_const() { (b, bi, a) } else { return unsup("bitwise and of symbolic integers") };
                let m1: BigInt = &m.c + 1;
                let k = m1.trailing_zeros().unwrap_or(0) as usize;
                if m1 != pow2(k) {
                    return unsup("bitwise and with a constant that is not a low mask");
                }
                let ((l, li), _) = self.z.divmod(&p, &pi, k);
                self.z_val(l, li, t)
            }
            BitOr | BitXor => {
                if t.is_bool() {
                    if let BitXor = op {
                        let two = a.mul(&b).scale(&BigInt::from(-2));
                        return Ok(self.z_bool(a.add(&b).add(&two)));
                    }
                    let s = a.add(&b);
                    if self.z.bound(&s).1 <= BigInt::one() || self.z.bound_elim(&s).1 <= BigInt::one() {
                        return Ok(self.z_bool(s));
                    }
                    if let Some(v) = self.z_minmax(&a, &b, false) {
                        return Ok(v);
                    }
                    return Ok(self.z_bool(s.sub(&a.mul(&b))));
                }
                // disjoint bits
                for ((p, _), (q, qi)) in [((&a, &ai), (&b, &bi)), ((&b, &bi), (&a, &ai))] {
                    let k = p.t.values().chain(std::iter::once(&p.c)).filter(|c| !c.is_zero()).map(|c| c.trailing_zeros().unwrap_or(0) as usize).min().unwrap_or(bits);
                    if !qi.0.is_negative() && qi.1 < pow2(k) {
                        return Ok(self.z_val(p.add(q), iv_add(&ai, &bi), t));
                    }
                }
                return unsup("bitwise or of symbolic integers with common bits");
            }
            Div | Rem => {
                if b.is_const() && b.c.is_positive() && b.c == pow2(b.c.trailing_zeros().unwrap_or(0) as usize) {
                    let k = b.c.trailing_zeros().unwrap_or(0) as usize;
                    let ((l, li), (h, hi)) = self.z.divmod(&a, &ai, k);
                    return Ok(if let Div = op { self.z_val(h, hi, t) } else { self.z_val(l, li, t) });
                }
                return unsup("division of symbolic integers");
            }
            _ => return unsup("operation on symbolic integers"),
        })
    }
    /// and / or of bools one of which is known to imply the other
    fn z_minmax(&mut self, a: &ZP, b: &ZP, and: bool) -> Option<V<'tcx>> {
        let d = self.z.bound(&a.sub(b));
        if !d.0.is_negative() {
            return Some(self.z_bool(if and { b.clone() } else { a.clone() }));
        }
        if !d.1.is_positive() {
            return Some(self.z_bool(if and { a.clone() } else { b.clone() }));
        }
        None
    }
    pub fn z_not(&mut self, v: &V<'tcx>) -> R<V<'tcx>> {
        match self.z_get(v) {
            Some((p, _)) => {
                let q = ZP::int(1).sub(&p);
                Ok(self.z_bool(q))
            }
            None => unsup("negation"),
        }
    }
    pub fn z_cast(&mut self, v: &V<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<V<'tcx>> {
        if from.is_signed() || to.is_signed() {
            return unsup("signed cast of a symbolic integer");
        }
        let Some((p, iv)) = self.z_get(v) else { return unsup("cast") };
        let bits = self.int_bits(to).0 as usize;
        let ((l, li), _) = self.z.divmod(&p, &iv, bits);
        Ok(self.z_val(l, li, to))
    }
    /// fork on a bool
    pub fn z_decide(&mut self, v: &V<'tcx>) -> R<bool> {
        let V::Sym(t, _) = v else {
            return Ok(v.int()? != 0);
        };
        let Some((p, iv)) = self.z_get(v) else { return unsup("condition") };
        if iv.0 == iv.1 {
            return Ok(iv.0.is_one());
        }
        let d = self.decide(*t, 2) == 1;
        self.z_assume(&p, d)?;
        Ok(d)
    }
    fn z_assume(&mut self, p: &ZP, d: bool) -> R<()> {
        let v = BigInt::from(d as u8);
        let c = self.z.cmps.get(p).cloned();
        let n = self.z.cmps.get(&ZP::int(1).sub(p)).cloned();
        self.z.assume(p, Some(v.clone()), Some(v))?;
        if let Some((diff, neg)) = c.map(|x| (x, d)).or(n.map(|x| (x, !d))) {
            if neg {
                self.z.assume(&diff, None, Some(BigInt::from(-1)))?;
            } else {
                self.z.assume(&diff, Some(BigInt::zero()), None)?;
            }
        }
        Ok(())
    }
    /// a condition the code asserts
    pub fn z_assert(&mut self, v: &V<'tcx>, expected: bool, msg: &str) -> R<()> {
        let Some((p, iv)) = self.z_get(v) else { return Ok(()) };
        if iv.0 == iv.1 {
            if iv.0.is_one() != expected {
                return Err(Stop::Panic(msg.into()));
            }
            return Ok(());
        }
        let n = self.z.asserted.len();
        self.z.pending.push((p.clone(), expected, msg.into(), n));
        self.z_assume(&p, expected)
    }
    pub fn z_call(&mut self, ty: Ty<'tcx>, m: &str, args: &[V<'tcx>]) -> R<Option<V<'tcx>>> {
        use mir::BinOp::*;
        let b = self.tcx.types.bool;
        let n = args.len();
        Ok(Some(match m {
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" if n == 2 => {
                let op = match m {
                    "wrapping_add" => Add,
                    "wrapping_sub" => Sub,
                    _ => Mul,
                };
                self.z_binop(op, &args[0], &args[1], ty, ty)?
            }
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "carrying_add" | "borrowing_sub" if n == 2 => {
                let op = match m {
                    "overflowing_add" => AddWithOverflow,
                    "overflowing_sub" => SubWithOverflow,
                    _ => MulWithOverflow,
                };
                let dt = Ty::new_tup(self.tcx, &[ty, b]);
                self.z_binop(op, &args[0], &args[1], ty, dt)?
            }
            "overflowing_shr" | "wrapping_shr" if n == 2 => {
                let bits = self.int_bits(ty).0 as u128;
                let k = args[1].int()?;
                let v = self.z_binop(Shr, &args[0], &V::Int(k % bits), ty, ty)?;
                if m == "wrapping_shr" {
                    return Ok(Some(v));
                }
                let dt = Ty::new_tup(self.tcx, &[ty, b]);
                adt(dt, 0, vec![v, V::Int((k >= bits) as u128)])
            }
            "leading_zeros" => {
                let bits = self.int_bits(ty).0 as usize;
                let Some((p, _)) = self.z_get(&args[0]) else { return unsup("leading_zeros") };
                let mut r = bits;
                for k in 0..bits {
                    // at least 2^(bits - 1 - k)
                    let iv = self.z.bound(&p);
                    let d = p.sub(&ZP::int(pow2(bits - 1 - k)));
                    let small = self.z_negative(&d, &(&iv.0 - pow2(bits - 1 - k), &iv.1 - pow2(bits - 1 - k)));
                    if !self.z_decide(&small)? {
                        r = k;
                        break;
                    }
                }
                V::Int(r as u128)
            }
            "wrapping_neg" => self.z_binop(Sub, &V::Int(0), &args[0], ty, ty)?,
            _ => return unsup(format!("{} of a symbolic integer", m)),
        }))
    }
    /// at a block: if it heads a loop of the function cut, see whether the invariant holds, and forget the rest
    pub fn z_cut(&mut self, fr: &Frame<'tcx>, bb: mir::BasicBlock) -> R<()> {
        let Some(cut) = self.z.cut.clone() else { return Ok(()) };
        if cut.def != Some(fr.inst.def_id()) {
            return Ok(());
        }
        let dom = fr.body.basic_blocks.dominators();
        let preds = &fr.body.basic_blocks.predecessors()[bb];
        let backs: Vec<mir::BasicBlock> = preds.iter().cloned().filter(|b| dom.dominates(bb, *b)).collect();
        if backs.is_empty() {
            return Ok(());
        }
        let words = |it: &Self, l: usize| -> Option<Vec<ZP>> {
            let v = fr.locals[l].borrow().clone();
            let V::Seq(s) = &v else { return None };
            s.iter().map(|x| it.z_get(x).map(|p| p.0)).collect()
        };
        let mut cut = cut;
        if cut.roles.is_none() {
            // blocks of the loop, and the word arrays they change
            let mut blocks = vec![bb];
            let mut todo = backs;
            while let Some(b) = todo.pop() {
                if !blocks.contains(&b) {
                    blocks.push(b);
                    todo.extend(fr.body.basic_blocks.predecessors()[b].iter().cloned());
                }
            }
            let mut changed: Vec<usize> = vec![];
            for b in &blocks {
                let d = &fr.body.basic_blocks[*b];
                for st in &d.statements {
                    if let mir::StatementKind::Assign(x) = &st.kind {
                        changed.push(x.0.local.as_usize());
                    }
                }
                if let mir::TerminatorKind::Call { destination, .. } = &d.terminator().kind {
                    changed.push(destination.local.as_usize());
                }
            }
            changed.sort_unstable();
            changed.dedup();
            let state: Vec<(usize, ZP)> = changed.into_iter().filter_map(|l| words(self, l).map(|w| (l, self.z.norm(&ZP::weighted(&w))))).collect();
            let find = |x: &ZP| -> Option<usize> {
                let m: Vec<usize> = state.iter().filter(|(_, p)| p == x).map(|(l, _)| *l).collect();
                if m.len() == 1 { Some(m[0]) } else { None }
            };
            let r = (find(&self.z.norm(&cut.a)), find(&ZP::int(cut.p.clone())), find(&ZP::int(1)), find(&ZP::default()));
            let (Some(u), Some(v), Some(b), Some(c)) = r else { return unsup("loop state of another shape") };
            if state.len() != 4 {
                return unsup("loop state of another shape");
            }
            cut.roles = Some([u, v, b, c]);
        }
        let roles = cut.roles.unwrap();
        let mut val = vec![];
        let mut n = 0;
        for l in roles {
            let Some(w) = words(self, l) else { return unsup("loop state of another shape") };
            n = w.len();
            self.z_view(&w)?;
            let d = ZP::weighted(&w);
            let (x, y) = (self.z.bound(&d), self.z_limb_bound(&w));
            val.push((d, cap(&x, &y)));
        }
        let top = [&cut.p, &cut.p, &(&cut.p - 1), &(&cut.p - 1)];
        for (i, (d, iv)) in val.iter().enumerate() {
            let e = self.z.bound_elim(d);
            let iv = cap(iv, &e);
            if iv.0.is_negative() || iv.1 > *top[i] {
                return unsup(format!("the loop is not shown to keep its {} within the order", ["first number", "second number", "first cofactor", "second cofactor"][i]));
            }
        }
        for (x, u) in [(2, 0), (3, 1)] {
            let e = val[x].0.mul(&cut.a).sub(&val[u].0);
            if !self.z.congruent_elim(&e, &cut.p) {
                return unsup("the loop is not shown to keep its numbers the cofactors' multiples of the input");
            }
        }
        let here: Vec<usize> = self.trace.iter().map(|x| x.1).collect();
        if *cut.first.entry(bb).or_insert_with(|| here.clone()) != here {
            self.z.cut = Some(cut);
            return Z::dead();
        }
        cut.seen += 1;
        let k = cut.seen;
        self.z.forget();
        let mut at = vec![];
        for (i, l) in roles.iter().enumerate() {
            let x = self.z.input(&format!("{}{}", ["u", "v", "b", "c"][i], k), BigInt::zero(), top[i].clone());
            let ws = self.z_limbs(&x, n);
            *fr.locals[*l].borrow_mut() = seq(ws);
            at.push(x);
        }
        let id = |x: &ZP| x.t.keys().next().unwrap()[0];
        let a = self.z.norm(&cut.a);
        if a.t.len() != 1 {
            return unsup("input of the loop");
        }
        self.z.rels = vec![(id(&at[2]), id(&a), at[0].clone()), (id(&at[3]), id(&a), at[1].clone())];
        self.z.cut = Some(cut);
        Ok(())
    }
    /// three-way comparison, forking: -1, 0, 1
    pub fn z_cmp(&mut self, a: &V<'tcx>, b: &V<'tcx>, t: Ty<'tcx>) -> R<i8> {
        let l = self.z_binop(mir::BinOp::Lt, a, b, t, t)?;
        if self.z_decide(&l)? {
            return Ok(-1);
        }
        let g = self.z_binop(mir::BinOp::Gt, a, b, t, t)?;
        if self.z_decide(&g)? {
            return Ok(1);
        }
        Ok(0)
    }
    /// words of an array of machine integers
    fn z_words(&mut self, v: &V<'tcx>) -> Option<Vec<ZP>> {
        let v = self.deref_all(v).ok()?;
        let v = match &v {
            V::Adt(a) if a.f.len() == 1 => self.deref_all(&a.f[0]).ok()?,
            _ => v,
        };
        let V::Seq(s) = v else { return None };
        if s.len() < 2 || s.len() > 8 {
            return None;
        }
        s.iter().map(|x| if matches!(x, V::Int(_)) || self.is_z(x) { self.z_get(x).map(|p| p.0) } else { None }).collect()
    }
    /// on return from a function, what its word arrays' limbs say about their values and differences
    pub fn z_views(&mut self, args: &[V<'tcx>]) -> R<()> {
        let ws: Vec<Vec<ZP>> = args.iter().filter_map(|a| self.z_words(a)).collect();
        for (i, x) in ws.iter().enumerate() {
            self.z_view(x)?;
            for y in &ws[i + 1..] {
                if x.len() == y.len() {
                    let d: Vec<ZP> = x.iter().zip(y).map(|(a, b)| a.sub(b)).collect();
                    self.z_view(&d)?;
                }
            }
        }
        Ok(())
    }
    pub fn z_view(&mut self, l: &[ZP]) -> R<()> {
        let w = ZP::weighted(l);
        if self.z.norm(&w).is_const() {
            return Ok(());
        }
        let b = self.z_limb_bound(l);
        let o = self.z.bound(&w);
        if b.0 > o.0 || b.1 < o.1 {
            self.z.derive(&w, &b)?;
        }
        Ok(())
    }
    pub fn z_limb_bound(&self, l: &[ZP]) -> Iv {
        let mut r = (BigInt::zero(), BigInt::zero());
        for (i, x) in l.iter().enumerate() {
            let b = self.z.bound(x);
            r = iv_add(&r, &(b.0 << (64 * i), b.1 << (64 * i)));
        }
        r
    }
    /// the limbs of an integer input below the bound
    pub fn z_limbs(&mut self, x: &ZP, n: usize) -> Vec<V<'tcx>> {
        let t = self.tcx.types.u64;
        let mut rest = (x.clone(), self.z.bound(x));
        let mut out = vec![];
        for _ in 0..n {
            let ((l, li), (h, hi)) = self.z.divmod(&rest.0, &rest.1, 64);
            out.push(self.z_val(l, li, t));
            rest = (h, hi);
        }
        out
    }
}
pub fn big(p: &BigUint) -> BigInt {
    BigInt::from(p.clone())
}
