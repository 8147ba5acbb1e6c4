//! Canonical value numbers: hash-consed terms and multivariate polynomials over a prime field whose
//! indeterminates ("atoms") are terms. Two field values are equal for every input iff the normal form
//! of their difference is the zero polynomial (after clearing the inverses it contains).
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type TermId = u32;
pub type FieldId = u8;
pub type Mono = Rc<Vec<(TermId, i32)>>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Poly {
    pub fid: FieldId,
    pub t: Rc<BTreeMap<Mono, BigUint>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Name(String),
    App(String, Vec<TermId>),
    Int(u128),
    Str(String),
    P(Poly),
    Inv(Poly),
}

#[derive(Default)]
pub struct Cx {
    pub fields: Vec<(String, BigUint)>,
    pub terms: Vec<Term>,
    pub map: HashMap<Term, TermId>,
    /// reduction rules atom^k -> poly
    pub rules: HashMap<TermId, (i32, Poly)>,
    pub subst: HashMap<TermId, Poly>,
}

thread_local! { pub static CX: RefCell<Cx> = RefCell::new(Cx::default()); }

pub fn intern(t: Term) -> TermId {
    CX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(&i) = c.map.get(&t) {
            return i;
        }
        let i = c.terms.len() as TermId;
        c.terms.push(t.clone());
        c.map.insert(t, i);
        i
    })
}
pub fn term(i: TermId) -> Term {
    CX.with(|c| c.borrow().terms[i as usize].clone())
}
pub fn name(s: &str) -> TermId {
    intern(Term::Name(s.to_string()))
}
pub fn app(op: &str, args: Vec<TermId>) -> TermId {
    intern(Term::App(op.to_string(), args))
}
pub fn show(i: TermId) -> String {
    show_d(i, 6)
}
pub fn show_d(i: TermId, d: usize) -> String {
    if d == 0 {
        return "…".into();
    }
    match term(i) {
        Term::Name(s) => s,
        Term::Str(s) => format!("{:?}", s),
        Term::Int(n) => n.to_string(),
        Term::App(op, a) => {
            let mut v: Vec<String> = a.iter().take(12).map(|&x| show_d(x, d - 1)).collect();
            if a.len() > 12 {
                v.push("…".into());
            }
            format!("{}({})", op, v.join(", "))
        }
        Term::P(p) => p.show_d(d - 1),
        Term::Inv(p) => format!("1/({})", p.show_d(d - 1)),
    }
}

pub fn register_field(name: &str, p: BigUint) -> FieldId {
    CX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(i) = c.fields.iter().position(|f| f.0 == name) {
            return i as FieldId;
        }
        c.fields.push((name.to_string(), p));
        (c.fields.len() - 1) as FieldId
    })
}
pub fn field_p(f: FieldId) -> BigUint {
    CX.with(|c| c.borrow().fields[f as usize].1.clone())
}
pub fn field_name(f: FieldId) -> String {
    CX.with(|c| c.borrow().fields[f as usize].0.clone())
}
pub fn set_subst(m: HashMap<TermId, Poly>) {
    CX.with(|c| c.borrow_mut().subst = m)
}
pub fn set_rule(a: TermId, k: i32, p: Poly) {
    CX.with(|c| {
        c.borrow_mut().rules.insert(a, (k, p));
    })
}
pub fn has_rule(a: TermId) -> bool {
    CX.with(|c| c.borrow().rules.contains_key(&a))
}
pub fn clear_rules() {
    CX.with(|c| {
        let mut c = c.borrow_mut();
        c.rules.clear();
        c.subst.clear();
    })
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1
        } else if a[i].0 > b[j].0 {
            r.push(b[j]);
            j += 1
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                r.push((a[i].0, e));
            }
            i += 1;
            j += 1
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    Rc::new(r)
}

pub const MAX_TERMS: usize = 60_000;

thread_local! {
    /// symbols which have a special value in the case under analysis
    static SPECIAL: std::cell::RefCell<HashMap<TermId, Poly>> = std::cell::RefCell::new(HashMap::new());
    static ANY_SPECIAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn set_special(a: Option<(TermId, Poly)>) {
    ANY_SPECIAL.with(|x| x.set(a.is_some()));
    SPECIAL.with(|m| {
        let mut m = m.borrow_mut();
        m.clear();
        m.extend(a);
    });
}
fn special(a: TermId) -> Option<Poly> {
    if !ANY_SPECIAL.with(|x| x.get()) {
        return None;
    }
    SPECIAL.with(|m| m.borrow().get(&a).cloned())
}
impl Poly {
    pub fn zero(fid: FieldId) -> Poly {
        Poly { fid, t: Rc::new(BTreeMap::new()) }
    }
    pub fn constant(fid: FieldId, c: BigUint) -> Poly {
        let p = field_p(fid);
        let c = c % p;
        let mut m = BTreeMap::new();
        if !c.is_zero() {
            m.insert(Rc::new(vec![]), c);
        }
        Poly { fid, t: Rc::new(m) }
    }
    pub fn int(fid: FieldId, c: u64) -> Poly {
        Poly::constant(fid, BigUint::from(c))
    }
    pub fn one(fid: FieldId) -> Poly {
        Poly::int(fid, 1)
    }
    pub fn atom(fid: FieldId, a: TermId) -> Poly {
        if let Some(p) = special(a) {
            return p;
        }
        let mut m = BTreeMap::new();
        m.insert(Rc::new(vec![(a, 1)]), BigUint::one());
        Poly { fid, t: Rc::new(m) }
    }
    pub fn is_zero_const(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<BigUint> {
        match self.t.len() {
            0 => Some(BigUint::zero()),
            1 => {
                let (k, v) = self.t.iter().next().unwrap();
                if k.is_empty() { Some(v.clone()) } else { None }
            }
            _ => None,
        }
    }
    pub fn as_atom(&self) -> Option<TermId> {
        if self.t.len() == 1 {
            let (k, v) = self.t.iter().next().unwrap();
            if k.len() == 1 && k[0].1 == 1 && v.is_one() {
                return Some(k[0].0);
            }
        }
        None
    }
    pub fn add(&self, o: &Poly) -> Poly {
        assert_eq!(self.fid, o.fid, "polynomials over different fields");
        if self.t.is_empty() {
            return o.clone();
        }
        if o.t.is_empty() {
            return self.clone();
        }
        let p = field_p(self.fid);
        let (a, b) = if self.t.len() >= o.t.len() { (self, o) } else { (o, self) };
        let mut r = (*a.t).clone();
        for (k, v) in b.t.iter() {
            let e = r.entry(k.clone()).or_insert_with(BigUint::zero);
            *e += v;
            if *e >= p {
                *e -= &p;
            }
            if e.is_zero() {
                r.remove(k);
            }
        }
        Poly { fid: self.fid, t: Rc::new(r) }
    }
    pub fn neg(&self) -> Poly {
        let p = field_p(self.fid);
        Poly { fid: self.fid, t: Rc::new(self.t.iter().map(|(k, v)| (k.clone(), &p - v)).collect()) }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn scale(&self, c: &BigUint) -> Poly {
        let p = field_p(self.fid);
        let mut m = BTreeMap::new();
        for (k, v) in self.t.iter() {
            let x = (v * c) % &p;
            if !x.is_zero() {
                m.insert(k.clone(), x);
            }
        }
        Poly { fid: self.fid, t: Rc::new(m) }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        assert_eq!(self.fid, o.fid, "polynomials over different fields");
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        if self.t.len() * o.t.len() > MAX_TERMS {
            // widen: keep the factors as atoms so that the value number stays canonical per factor pair
            let (a, b) = if self <= o { (self, o) } else { (o, self) };
            let ta = Poly::atom(self.fid, intern(Term::P(a.clone())));
            let tb = Poly::atom(self.fid, intern(Term::P(b.clone())));
            return ta.mul(&tb);
        }
        let p = field_p(self.fid);
        let mut r: HashMap<Mono, BigUint> = HashMap::new();
        for (k1, v1) in self.t.iter() {
            for (k2, v2) in o.t.iter() {
                let k = mono_mul(k1, k2);
                let e = r.entry(k).or_insert_with(BigUint::zero);
                *e = (&*e + v1 * v2) % &p;
            }
        }
        let t = r.into_iter().filter(|(_, v)| !v.is_zero()).collect();
        Poly { fid: self.fid, t: Rc::new(t) }.reduce()
    }
    /// apply the reduction rules (b^2 -> b for bits, y^2 -> x^3+Ax+B for points)
    pub fn reduce(self) -> Poly {
        let any = CX.with(|c| {
            let c = c.borrow();
            !c.rules.is_empty() && self.t.keys().any(|m| m.iter().any(|(a, e)| *e > 0 && c.rules.get(a).map(|r| *e >= r.0 && r.1.fid == self.fid).unwrap_or(false)))
        });
        if !any {
            return self;
        }
        let mut cur = self;
        loop {
            let mut changed = false;
            let mut out = Poly::zero(cur.fid);
            let mut keep = BTreeMap::new();
            for (m, c) in cur.t.iter() {
                let hit = CX.with(|c| {
                    let c = c.borrow();
                    m.iter().find_map(|&(a, e)| match c.rules.get(&a) {
                        Some((k, rp)) if e >= *k && rp.fid == cur.fid => Some((a, *k, rp.clone())),
                        _ => None,
                    })
                });
                match hit {
                    None => {
                        keep.insert(m.clone(), c.clone());
                    }
                    Some((a, k, rp)) => {
                        changed = true;
                        let m2: Vec<(TermId, i32)> = m
                            .iter()
                            .filter_map(|&(x, e)| if x == a { if e == k { None } else { Some((x, e - k)) } } else { Some((x, e)) })
                            .collect();
                        let mut mm = BTreeMap::new();
                        mm.insert(Rc::new(m2), c.clone());
                        let base = Poly { fid: cur.fid, t: Rc::new(mm) };
                        out = out.add(&base.mul_raw(&rp));
                    }
                }
            }
            cur = out.add(&Poly { fid: cur.fid, t: Rc::new(keep) });
            if !changed {
                return cur;
            }
        }
    }
    fn mul_raw(&self, o: &Poly) -> Poly {
        let p = field_p(self.fid);
        let mut r: BTreeMap<Mono, BigUint> = BTreeMap::new();
        for (k1, v1) in self.t.iter() {
            for (k2, v2) in o.t.iter() {
                let k = mono_mul(k1, k2);
                let e = r.entry(k).or_insert_with(BigUint::zero);
                *e = (&*e + v1 * v2) % &p;
            }
        }
        Poly { fid: self.fid, t: Rc::new(r.into_iter().filter(|(_, v)| !v.is_zero()).collect()) }
    }
    pub fn pow(&self, mut e: u64) -> Poly {
        let mut b = self.clone();
        let mut r = Poly::one(self.fid);
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn inv(&self) -> Poly {
        let p = field_p(self.fid);
        if self.t.len() == 1 {
            let (k, v) = self.t.iter().next().unwrap();
            let vi = v.modpow(&(&p - 2u32), &p);
            let m: Vec<_> = k.iter().map(|&(a, e)| (a, -e)).collect();
            let mut t = BTreeMap::new();
            t.insert(Rc::new(m), vi);
            return Poly { fid: self.fid, t: Rc::new(t) };
        }
        if self.t.is_empty() {
            return Poly::atom(self.fid, name("inv(0)"));
        }
        // normalise: monic in the leading monomial, and common monomial factor pulled out
        let (cont, prim) = self.content();
        let lead = prim.t.iter().next_back().unwrap().1.clone();
        let li = lead.modpow(&(&p - 2u32), &p);
        let monic = prim.scale(&li);
        let a = Poly::atom(self.fid, intern(Term::Inv(monic)));
        cont.inv().mul(&a).scale(&li)
    }
    /// (common monomial, primitive part)
    fn content(&self) -> (Poly, Poly) {
        let mut common: Option<BTreeMap<TermId, i32>> = None;
        for m in self.t.keys() {
            let mm: BTreeMap<TermId, i32> = m.iter().cloned().collect();
            common = Some(match common {
                None => mm,
                Some(c) => {
                    let mut r = BTreeMap::new();
                    let ids: BTreeSet<TermId> = c.keys().chain(mm.keys()).cloned().collect();
                    for a in ids {
                        let e = (*c.get(&a).unwrap_or(&0)).min(*mm.get(&a).unwrap_or(&0));
                        if e != 0 {
                            r.insert(a, e);
                        }
                    }
                    r
                }
            });
        }
        let common: Vec<(TermId, i32)> = common.unwrap_or_default().into_iter().collect();
        let mut t = BTreeMap::new();
        t.insert(Rc::new(common.clone()), BigUint::one());
        let cont = Poly { fid: self.fid, t: Rc::new(t) };
        let neg: Vec<_> = common.iter().map(|&(a, e)| (a, -e)).collect();
        let negm = Rc::new(neg);
        let prim = Poly {
            fid: self.fid,
            t: Rc::new(self.t.iter().map(|(k, v)| (mono_mul(k, &negm), v.clone())).collect()),
        };
        (cont, prim)
    }
    /// Is this the zero rational function? Clears negative exponents and inverse atoms exactly.
    pub fn is_zero(&self) -> bool {
        self.normalised().t.is_empty()
    }
    /// numerator after clearing denominators (nonzero multiples only)
    /// self with the special values of symbols
    fn specialised(&self) -> Poly {
        if !ANY_SPECIAL.with(|x| x.get()) {
            return self.clone();
        }
        let m = SPECIAL.with(|m| m.borrow().clone());
        self.subst(&m)
    }
    pub fn normalised(&self) -> Poly {
        let mut cur = self.specialised().reduce();
        for _ in 0..256 {
            if cur.t.is_empty() {
                return cur;
            }
            // expand widened product atoms
            let mut widened = None;
            // clear negative exponents
            let mut low: BTreeMap<TermId, i32> = BTreeMap::new();
            let mut invs: Vec<TermId> = vec![];
            for m in cur.t.keys() {
                for &(a, e) in m.iter() {
                    if e < 0 {
                        let l = low.entry(a).or_insert(0);
                        *l = (*l).min(e);
                    }
                    match term(a) {
                        Term::Inv(_) => {
                            if !invs.contains(&a) {
                                invs.push(a)
                            }
                        }
                        Term::P(p) if p.fid == cur.fid => widened = Some(widened.map_or(a, |w: TermId| w.max(a))),
                        _ => {}
                    }
                }
            }
            if !low.is_empty() {
                let mm: Vec<(TermId, i32)> = low.into_iter().map(|(a, e)| (a, -e)).collect();
                let mm = Rc::new(mm);
                cur = Poly { fid: cur.fid, t: Rc::new(cur.t.iter().map(|(k, v)| (mono_mul(k, &mm), v.clone())).collect()) }.reduce();
                continue;
            }
            if invs.is_empty() {
                match widened {
                    Some(w) => {
                        let Term::P(p) = term(w) else { unreachable!() };
                        let one: HashMap<TermId, Poly> = [(w, p)].into_iter().collect();
                        let nx = cur.subst(&one).reduce();
                        if nx.t.len() > 50_000 {
                            return cur;
                        }
                        cur = nx;
                        continue;
                    }
                    None => return cur,
                }
            }
            let a = *invs.iter().max().unwrap();
            let b = match term(a) {
                Term::Inv(b) => b,
                _ => unreachable!(),
            };
            let mut kmax = 0;
            for m in cur.t.keys() {
                for &(x, e) in m.iter() {
                    if x == a {
                        kmax = kmax.max(e)
                    }
                }
            }
            let mut bp = vec![Poly::one(cur.fid)];
            for i in 0..kmax {
                let n = bp[i as usize].mul(&b);
                bp.push(n);
            }
            let mut parts: BTreeMap<i32, BTreeMap<Mono, BigUint>> = BTreeMap::new();
            for (m, v) in cur.t.iter() {
                let e = m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
                let m2: Vec<_> = m.iter().cloned().filter(|x| x.0 != a).collect();
                parts.entry(e).or_default().insert(Rc::new(m2), v.clone());
            }
            let mut out = Poly::zero(cur.fid);
            for (e, t) in parts {
                out = out.add(&Poly { fid: cur.fid, t: Rc::new(t) }.mul(&bp[(kmax - e) as usize]));
            }
            cur = out;
        }
        cur
    }
    pub fn degree_in(&self, f: &dyn Fn(TermId) -> bool) -> i32 {
        self.t.keys().map(|m| m.iter().filter(|x| f(x.0)).map(|x| x.1).sum::<i32>()).max().unwrap_or(0)
    }
    pub fn atoms(&self) -> BTreeSet<TermId> {
        self.t.keys().flat_map(|m| m.iter().map(|x| x.0)).collect()
    }
    /// all atoms, including those inside function arguments
    pub fn deep_atoms(&self, out: &mut BTreeSet<TermId>) {
        for a in self.atoms() {
            deep_term(a, out)
        }
    }
    pub fn subst(&self, m: &HashMap<TermId, Poly>) -> Poly {
        if !self.atoms().iter().any(|a| m.contains_key(a) || matches!(term(*a), Term::Inv(_))) {
            return self.clone();
        }
        let p = field_p(self.fid);
        let mut out: BTreeMap<Mono, BigUint> = BTreeMap::new();
        let mut base: HashMap<TermId, Option<Poly>> = HashMap::new();
        let mut pows: HashMap<(TermId, i32), Poly> = HashMap::new();
        let put = |k: Mono, v: BigUint, out: &mut BTreeMap<Mono, BigUint>| {
            let e = out.entry(k.clone()).or_insert_with(BigUint::zero);
            *e += v;
            if *e >= p {
                *e -= &p;
            }
            if e.is_zero() {
                out.remove(&k);
            }
        };
        for (k, v) in self.t.iter() {
            let mut keep: Vec<(TermId, i32)> = vec![];
            let mut acc: Option<Poly> = None;
            for &(a, e) in k.iter() {
                let b = base.entry(a).or_insert_with(|| match m.get(&a) {
                    Some(q) => Some(q.clone()),
                    None => match term(a) {
                        Term::Inv(b) => Some(b.subst(m).inv()),
                        _ => None,
                    },
                });
                match b {
                    None => keep.push((a, e)),
                    Some(b) => {
                        let q = pows.entry((a, e)).or_insert_with(|| if e >= 0 { b.pow(e as u64) } else { b.inv().pow((-e) as u64) });
                        acc = Some(match acc {
                            None => q.clone(),
                            Some(x) => x.mul(q),
                        });
                    }
                }
            }
            match acc {
                None => put(k.clone(), v.clone(), &mut out),
                Some(x) => {
                    let mono = Poly { fid: self.fid, t: Rc::new([(Rc::new(keep), v.clone())].into_iter().collect()) };
                    let r = x.mul(&mono);
                    for (k2, v2) in r.t.iter() {
                        put(k2.clone(), v2.clone(), &mut out);
                    }
                }
            }
        }
        Poly { fid: self.fid, t: Rc::new(out) }
    }
    pub fn show(&self) -> String {
        self.show_d(4)
    }
    pub fn show_d(&self, d: usize) -> String {
        if self.t.is_empty() {
            return "0".into();
        }
        let p = field_p(self.fid);
        let half = &p / 2u32;
        let mut s = String::new();
        for (i, (k, v)) in self.t.iter().enumerate() {
            if i > 24 {
                s.push_str(&format!(" + …({} terms)", self.t.len()));
                break;
            }
            let (sg, c) = if *v > half { ("-", &p - v) } else { ("+", v.clone()) };
            if i > 0 || sg == "-" {
                s.push_str(&format!(" {} ", sg));
            }
            let cs = c.to_string();
            let cs = if cs.len() > 12 { format!("c{}…", &cs[..8]) } else { cs };
            if k.is_empty() {
                s.push_str(&cs);
            } else {
                if cs != "1" {
                    s.push_str(&cs);
                    s.push('*');
                }
                s.push_str(
                    &k.iter()
                        .map(|&(a, e)| if e == 1 { show_d(a, d) } else { format!("{}^{}", show_d(a, d), e) })
                        .collect::<Vec<_>>()
                        .join("*"),
                );
            }
        }
        s
    }
}

pub fn deep_term(a: TermId, out: &mut BTreeSet<TermId>) {
    if !out.insert(a) {
        return;
    }
    match term(a) {
        Term::App(_, args) => {
            for x in args {
                deep_term(x, out)
            }
        }
        Term::P(p) | Term::Inv(p) => p.deep_atoms(out),
        _ => {}
    }
}
