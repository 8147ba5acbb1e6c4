//! Transfer functions for field arithmetic and for the parts of std/rayon/anyhow/log the crate uses.
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};
use std::rc::Rc;

impl<'tcx> Interp<'tcx> {
    // ------------------------------------------------------------------ helpers

    pub fn tup(&self, f: Vec<V<'tcx>>) -> V<'tcx> {
        adt(self.tcx.types.unit, 0, f)
    }
    pub fn unit(&self) -> V<'tcx> {
        adt(self.tcx.types.unit, 0, vec![])
    }
    pub fn some(&self, dt: Ty<'tcx>, v: V<'tcx>) -> V<'tcx> {
        adt(dt, 1, vec![v])
    }
    pub fn none(&self, dt: Ty<'tcx>) -> V<'tcx> {
        adt(dt, 0, vec![])
    }
    pub fn opt(&self, dt: Ty<'tcx>, v: Option<V<'tcx>>) -> V<'tcx> {
        match v {
            Some(v) => self.some(dt, v),
            None => self.none(dt),
        }
    }
    pub fn boolv(&self, b: bool) -> V<'tcx> {
        V::Int(b as u128)
    }
    fn arg_ty(&self, dt: Ty<'tcx>, i: usize) -> Option<Ty<'tcx>> {
        match dt.kind() {
            ty::Adt(_, a) => a.types().nth(i),
            _ => None,
        }
    }
    /// read an enum-like value (materialising symbols): (variant, fields)
    pub fn variant(&mut self, v: &V<'tcx>) -> R<(u32, Vec<V<'tcx>>)> {
        let v = match v {
            V::Ref(_) => {
                let p = self.base_ptr(v)?;
                self.with(&p, |s, x| {
                    if let V::Sym(..) = x {
                        let m = s.materialize(x)?;
                        *x = m;
                    }
                    Ok(x.clone())
                })?
            }
            V::Sym(..) => self.materialize(v)?,
            o => o.clone(),
        };
        match v {
            V::Adt(a) => Ok((a.variant, a.f.clone())),
            o => unsup(format!("expected an enum, got {}", o.show_d(2))),
        }
    }
    pub fn as_ref_opt(&mut self, v: &V<'tcx>, dt: Ty<'tcx>) -> R<V<'tcx>> {
        let p = self.base_ptr(v)?;
        let (k, f) = self.variant(&V::Ref(p.clone()))?;
        let is_some = match dt.kind() {
            ty::Adt(d, _) => !f.is_empty() && d.variant(rustc_abi::VariantIdx::from_u32(k)).fields.len() == 1,
            _ => !f.is_empty(),
        };
        if is_some {
            let mut path = (*p.path).clone();
            path.push(P::Variant(k));
            path.push(P::Field(0));
            Ok(adt(dt, k, vec![V::Ref(Ptr { cell: p.cell, path: Rc::new(path) })]))
        } else {
            Ok(adt(dt, k, vec![]))
        }
    }

    // ------------------------------------------------------------------ field elements

    fn fval(&mut self, v: &V<'tcx>, fid: FieldId) -> R<Poly> {
        let v = self.deref_all(v)?;
        match v {
            V::F(p) => Ok(p),
            V::Seq(s) => {
                let l: Vec<u64> = s.iter().filter_map(|x| x.int().ok()).map(|x| x as u64).collect();
                if l.len() == s.len() { Ok(limbs_to_field(fid, &l)) } else { unsup("symbolic limbs") }
            }
            V::Adt(a) if a.f.len() == 1 => {
                let x = a.f[0].clone();
                self.fval(&x, fid)
            }
            o => unsup(format!("expected a field element, got {}", o.show_d(2))),
        }
    }
    pub fn field_eq(&mut self, a: &Poly, b: &Poly) -> V<'tcx> {
        let d = a.sub(b);
        if let Some(c) = d.as_const() {
            return self.boolv(c.is_zero());
        }
        let n = d.normalised();
        if let Some(c) = n.as_const() {
            return self.boolv(c.is_zero());
        }
        let (_, lead) = n.t.iter().next_back().unwrap();
        let p = field_p(n.fid);
        let li = lead.modpow(&(&p - 2u32), &p);
        let m = n.scale(&li);
        let t = app("is0", vec![intern(Term::P(m))]);
        if let Some(&d) = self.assumed.get(&t) {
            return V::Int(d as u128);
        }
        // a product is zero exactly when one of its factors is
        if let (1, Some((mono, _))) = (n.t.len(), n.t.iter().next()) {
            if mono.len() > 1 {
                let known: Vec<Option<u32>> = mono.iter().map(|(a, _)| self.assumed.get(&app("is0", vec![intern(Term::P(Poly::atom(n.fid, *a)))])).map(|&d| d as u32)).collect();
                if known.iter().any(|k| *k == Some(1)) {
                    return V::Int(1);
                }
                if known.iter().all(|k| *k == Some(0)) {
                    return V::Int(0);
                }
            }
        }
        if self.eq_generic {
            self.assume(t, 0);
            if let Term::App(_, a) = term(t) {
                self.generic.insert(a[0]);
            }
            return V::Int(0);
        }
        V::Sym(t, self.tcx.types.bool)
    }
    pub fn bits_of(&mut self, p: &Poly, width: u32, op: &str) -> Vec<V<'tcx>> {
        let n = n_limbs(p.fid) * 64 / width as usize;
        let t = match width {
            1 => self.tcx.types.bool,
            8 => self.tcx.types.u8,
            32 => self.tcx.types.u32,
            _ => self.tcx.types.u64,
        };
        match p.as_const() {
            Some(c) => {
                let m = BigUint::from(u64::MAX) >> (64 - width) as usize;
                (0..n).map(|i| V::Int(((&c >> (i * width as usize)) & &m).to_u64().unwrap() as u128)).collect()
            }
            None => {
                let k = p.as_atom().unwrap_or_else(|| intern(Term::P(p.clone())));
                (0..n).map(|i| V::Sym(app(op, vec![k, intern(Term::Int(i as u128))]), t)).collect()
            }
        }
    }
    /// inverse of bits_of
    fn from_limbs(&mut self, fid: FieldId, items: &[V<'tcx>], width: u32, op: &str) -> R<Poly> {
        let ints: Vec<u128> = items.iter().filter_map(|x| x.int().ok()).collect();
        if ints.len() == items.len() {
            let mut r = BigUint::zero();
            for (i, x) in ints.iter().enumerate() {
                r += BigUint::from(*x) << (i * width as usize);
            }
            return Ok(Poly::constant(fid, r));
        }
        let mut src: Option<TermId> = None;
        let mut ok = true;
        for (i, x) in items.iter().enumerate() {
            match x {
                V::Sym(t, _) => match term(*t) {
                    Term::App(o, a) if o == op && a.len() == 2 && term(a[1]) == Term::Int(i as u128) => {
                        if src.is_some() && src != Some(a[0]) {
                            ok = false
                        }
                        src = Some(a[0]);
                    }
                    _ => ok = false,
                },
                _ => ok = false,
            }
        }
        if let (true, Some(t)) = (ok, src) {
            return Ok(self.convert_atom(t, fid));
        }
        let mut k = vec![];
        for i in items {
            k.push(self.vkey(i));
        }
        Ok(Poly::atom(fid, app(&format!("from_{}", op), k)))
    }
    /// re-encoding of a value of one field as an element of another one
    pub fn convert_atom(&mut self, t: TermId, fid: FieldId) -> Poly {
        if let Term::P(p) = term(t) {
            if p.fid == fid {
                return p;
            }
            if let Some(c) = p.as_const() {
                return Poly::constant(fid, c);
            }
        }
        if let Term::App(op, a) = term(t) {
            if op.starts_with("conv:") {
                let inner = a[0];
                if op == format!("conv:{}", field_name(fid)) || self.atom_field(inner) == Some(fid) {
                    return match term(inner) {
                        Term::P(p) => p,
                        _ => Poly::atom(fid, inner),
                    };
                }
            }
        }
        if self.atom_field(t) == Some(fid) {
            return Poly::atom(fid, t);
        }
        let from = match term(t) {
            Term::P(p) => field_name(p.fid),
            _ => self.atom_field(t).map(field_name).unwrap_or_default(),
        };
        if !from.is_empty() {
            let r = app(&format!("conv:{}", from), vec![t]);
            self.atom_fields.insert(r, fid);
            return Poly::atom(fid, r);
        }
        Poly::atom(fid, app("conv:", vec![t]))
    }
    pub fn atom_field(&self, t: TermId) -> Option<FieldId> {
        self.atom_fields.get(&t).cloned()
    }
    pub fn note_atom(&mut self, p: &Poly) {
        if let Some(a) = p.as_atom() {
            self.atom_fields.insert(a, p.fid);
        }
    }
    pub fn bool_to_field(&mut self, fid: FieldId, b: &V<'tcx>) -> R<Poly> {
        match b {
            V::Int(i) => Ok(Poly::int(fid, *i as u64)),
            V::Sym(t, _) => {
                if let Some(&d) = self.assumed.get(t) {
                    return Ok(Poly::int(fid, d as u64));
                }
                if let Term::App(op, a) = term(*t) {
                    if op == "not" {
                        let inner = self.bool_to_field(fid, &V::Sym(a[0], self.tcx.types.bool))?;
                        return Ok(Poly::one(fid).sub(&inner));
                    }
                }
                let a = app(&format!("b2f:{}", field_name(fid)), vec![*t]);
                let p = Poly::atom(fid, a);
                set_rule(a, 2, p.clone());
                Ok(p)
            }
            o => unsup(format!("bool {}", o.show_d(2))),
        }
    }
    pub fn int_to_field(&mut self, fid: FieldId, v: &V<'tcx>) -> R<Poly> {
        match v {
            V::Int(i) => Ok(Poly::constant(fid, BigUint::from(*i))),
            V::Sym(t, _) => Ok(Poly::atom(fid, app(&format!("int2f:{}", field_name(fid)), vec![*t]))),
            o => unsup(format!("integer {}", o.show_d(2))),
        }
    }
    pub fn pow_const(&self, b: &Poly, e: &BigUint) -> Poly {
        let p = field_p(b.fid);
        if let Some(c) = b.as_const() {
            return Poly::constant(b.fid, c.modpow(e, &p));
        }
        if let Some(small) = e.to_u64() {
            if small <= 4096 && (b.t.len() == 1 || small <= 64) {
                return b.pow(small);
            }
        }
        let k = b.as_atom().unwrap_or_else(|| intern(Term::P(b.clone())));
        Poly::atom(b.fid, app(&format!("pow{}", e), vec![k]))
    }

    pub fn field_call(&mut self, key: &str, d: DefId, ga: GenericArgsRef<'tcx>, args: &[V<'tcx>], dt: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        let (tr, m) = key.split_once("::").unwrap_or(("", key));
        let interesting = matches!(
            tr,
            "Add" | "Sub" | "Mul" | "Div" | "Neg" | "PartialEq" | "Clone" | "Default" | "Ord" | "PartialOrd" | "Field" | "AddAssign" | "SubAssign" | "MulAssign"
        ) || self.field_tys.iter().any(|(d, f)| f.is_some() && self.tcx.item_name(*d).as_str() == tr);
        if !interesting {
            return Ok(None);
        }
        let st = if ga.len() > 0 && ga[0].as_type().is_some() {
            ga.type_at(0)
        } else if let Some(i) = self.tcx.inherent_impl_of_assoc(d) {
            self.tcx.type_of(i).instantiate(self.tcx, ga).skip_norm_wip()
        } else {
            return Ok(None);
        };
        let st = match st.kind() {
            ty::Ref(_, t, _) => *t,
            _ => st,
        };
        let Some(fid) = self.field_ty(st) else { return Ok(None) };
        let h: String = if self.no_field_model || self.skip_model.contains(m) { return Ok(None) } else { m.to_string() };
        let r = match (tr, h.as_str()) {
            ("Add", "add") => V::F(self.fval(&args[0], fid)?.add(&self.fval(&args[1], fid)?)),
            ("Sub", "sub") => V::F(self.fval(&args[0], fid)?.sub(&self.fval(&args[1], fid)?)),
            ("Mul", "mul") => V::F(self.fval(&args[0], fid)?.mul(&self.fval(&args[1], fid)?)),
            ("Div", "div") => {
                let b = self.fval(&args[1], fid)?;
                let z = self.field_eq(&b, &Poly::zero(fid));
                match z {
                    V::Int(1) => return Err(Stop::Panic("division by zero".into())),
                    V::Sym(t, _) => self.assume(t, 0),
                    _ => {}
                }
                V::F(self.fval(&args[0], fid)?.mul(&b.inv()))
            }
            ("Neg", "neg") => V::F(self.fval(&args[0], fid)?.neg()),
            ("PartialEq", "eq") | ("PartialEq", "ne") => {
                let (a, b) = (self.fval(&args[0], fid)?, self.fval(&args[1], fid)?);
                let r = self.field_eq(&a, &b);
                if h == "ne" {
                    match r {
                        V::Int(i) => V::Int(1 - i),
                        V::Sym(t, ty) => V::Sym(not_term(t), ty),
                        o => o,
                    }
                } else {
                    r
                }
            }
            ("Clone", "clone") => V::F(self.fval(&args[0], fid)?),
            ("Default", "default") => V::F(Poly::zero(fid)),
            ("Ord", "cmp") => {
                let (a, b) = (self.fval(&args[0], fid)?, self.fval(&args[1], fid)?);
                match (a.as_const(), b.as_const()) {
                    (Some(x), Some(y)) => adt(dt, (x.cmp(&y) as i8 + 1) as u32, vec![]),
                    _ => {
                        let k = vec![self.vkey(&V::F(a)), self.vkey(&V::F(b))];
                        V::Sym(app("fcmp", k), dt)
                    }
                }
            }
            ("Field", "square") | ("Field", "double") | ("Field", "triple") | ("Field", "quadruple") | ("Field", "cube") => {
                // overridden per field: the limb-level algorithm is below this abstraction; trait defaults are analysed
                let overridden = match Instance::try_resolve(self.tcx, self.te, d, ga) {
                    Ok(Some(i)) => i.def_id() != d,
                    _ => true,
                };
                if !overridden && h != "square" {
                    return Ok(None);
                }
                let a = self.fval(&args[0], fid)?;
                V::F(match h.as_str() {
                    "square" => a.mul(&a),
                    "double" => a.add(&a),
                    "triple" => a.add(&a).add(&a),
                    "quadruple" => a.add(&a).add(&a).add(&a),
                    _ => a.mul(&a).mul(&a),
                })
            }
            ("Field", "multiplicative_inverse_assuming_nonzero") => {
                let a = self.fval(&args[0], fid)?;
                V::F(a.inv())
            }
            ("Field", "to_canonical_u64_vec") => {
                let a = self.fval(&args[0], fid)?;
                seq(self.bits_of(&a, 64, "limb"))
            }
            ("Field", "to_canonical_u32_vec") => {
                let a = self.fval(&args[0], fid)?;
                seq(self.bits_of(&a, 32, "word"))
            }
            ("Field", "to_canonical_u8_vec") => {
                let a = self.fval(&args[0], fid)?;
                seq(self.bits_of(&a, 8, "byte"))
            }
            ("Field", "to_canonical_bool_vec") => {
                let a = self.fval(&args[0], fid)?;
                seq(self.bits_of(&a, 1, "bit"))
            }
            (_, "to_canonical") if tr != "Field" => {
                let a = self.fval(&args[0], fid)?;
                seq(self.bits_of(&a, 64, "limb"))
            }
            ("Field", "from_canonical_u64_vec") => {
                let s = self.seq_items(&args[0])?;
                V::F(self.from_limbs(fid, &s, 64, "limb")?)
            }
            ("Field", "from_canonical_u32_vec") => {
                let s = self.seq_items(&args[0])?;
                V::F(self.from_limbs(fid, &s, 32, "word")?)
            }
            (_, "from_canonical") if tr != "Field" => {
                let s = self.seq_items(&args[0])?;
                V::F(self.from_limbs(fid, &s, 64, "limb")?)
            }
            ("Field", "from_canonical_u8_vec") => {
                let s = self.seq_items(&args[0])?;
                let p = self.from_limbs(fid, &s, 8, "byte")?;
                adt(dt, 0, vec![V::F(p)])
            }
            ("Field", "from_canonical_u64") | ("Field", "from_canonical_u32") | ("Field", "from_canonical_usize") => V::F(self.int_to_field(fid, &args[0])?),
            ("Field", "from_canonical_bool") => V::F(self.bool_to_field(fid, &args[0])?),
            ("Field", "is_valid_canonical_u64") => {
                let s = self.seq_items(&args[0])?;
                // the limbs of an element of this field, or a constant
                let q = self.from_limbs(fid, &s, 64, "limb")?;
                let own = |t: TermId| match term(t) {
                    Term::P(p) => p.fid == fid,
                    _ => self.atom_fields.get(&t) == Some(&fid),
                };
                let src: Vec<TermId> = s
                    .iter()
                    .filter_map(|x| match x {
                        V::Sym(t, _) => match term(*t) {
                            Term::App(o, a) if o == "limb" => Some(a[0]),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect();
                if src.len() == n_limbs(fid) && s.len() == src.len() && src.iter().all(|t| own(*t)) && !q.as_atom().map_or(false, |t| matches!(term(t), Term::App(o, _) if o.starts_with("from_"))) {
                    return Ok(Some(V::Int(1)));
                }
                if s.len() == n_limbs(fid) && s.iter().all(|x| x.int().is_ok()) {
                    let mut r = BigUint::zero();
                    for (i, x) in s.iter().enumerate() {
                        r += BigUint::from(x.int()?) << (64 * i);
                    }
                    return Ok(Some(V::Int((r < field_p(fid)) as u128)));
                }
                let k = self.vkey(&V::Seq(s));
                V::Sym(app(&format!("is_canonical:{}", field_name(fid)), vec![k]), self.tcx.types.bool)
            }
            ("Field", "rand") | ("Field", "rand_from_rng") => {
                self.fresh += 1;
                let mut a = name(&format!("rand{}#{}", fid, self.fresh));
                if let Some(r) = args.first() {
                    if let Some(t) = self.rng_draw(&r.clone())? {
                        a = app(&format!("draw:{}", field_name(fid)), vec![t]);
                        if self.draw_const {
                            let p = field_p(fid);
                            let mut x = BigUint::from(a as u64 + 0x1234_5678_9abcu64);
                            for _ in 0..4 {
                                x = (&x * &x * &x + 0x9e37_79b9_7f4a_7c15u64) % &p;
                            }
                            return Ok(Some(V::F(Poly::constant(fid, x))));
                        }
                    }
                }
                self.atom_fields.insert(a, fid);
                V::F(Poly::atom(fid, a))
            }
            ("Field", "exp") => {
                let a = self.fval(&args[0], fid)?;
                let b = self.fval(&args[1], fid)?;
                match b.as_const() {
                    Some(e) => V::F(self.pow_const(&a, &e)),
                    None => {
                        let k = vec![self.vkey(&V::F(a)), self.vkey(&V::F(b))];
                        V::F(Poly::atom(fid, app("exp", k)))
                    }
                }
            }
            ("Field", "exp_u32") | ("Field", "exp_usize") => {
                let a = self.fval(&args[0], fid)?;
                match &args[1] {
                    V::Int(e) => V::F(self.pow_const(&a, &BigUint::from(*e))),
                    o => {
                        let k = vec![self.vkey(&V::F(a)), self.vkey(&o.clone())];
                        V::F(Poly::atom(fid, app("expi", k)))
                    }
                }
            }
            ("Field", "kth_root") | ("Field", "kth_root_u32") => {
                let a = self.fval(&args[0], fid)?;
                let k = match &args[1] {
                    V::Int(i) => BigUint::from(*i),
                    V::F(q) => match q.as_const() {
                        Some(c) => c,
                        None => return unsup("symbolic root"),
                    },
                    o => return unsup(format!("root {}", o.show_d(2))),
                };
                if let Some(c) = a.as_const() {
                    let p = field_p(fid);
                    let pm1 = &p - 1u32;
                    let inv = modinv(&k, &pm1);
                    if let Some(e) = inv {
                        return Ok(Some(V::F(Poly::constant(fid, c.modpow(&e, &p)))));
                    }
                }
                let ka = a.as_atom().unwrap_or_else(|| intern(Term::P(a.clone())));
                let at = app(&format!("root{}", k), vec![ka]);
                if let Some(small) = k.to_u64() {
                    set_rule(at, small as i32, Poly::atom(fid, ka));
                }
                V::F(Poly::atom(fid, at))
            }
            ("Field", "square_root") if self.opaque_sqrt => {
                let a = self.fval(&args[0], fid)?;
                let ka = self.vkey(&V::F(a));
                V::Sym(app("sqrt", vec![ka]), dt)
            }
            ("Field", "is_quadratic_residue") => {
                let a = self.fval(&args[0], fid)?;
                if a.as_const().is_some() {
                    return Ok(None);
                }
                let ka = self.vkey(&V::F(a));
                V::Sym(app("is_qr", vec![ka]), self.tcx.types.bool)
            }
            ("Field", "num_bits") => {
                let a = self.fval(&args[0], fid)?;
                match a.as_const() {
                    Some(c) => V::Int(c.bits() as u128),
                    None => {
                        let ka = self.vkey(&V::F(a));
                        V::Sym(app("num_bits", vec![ka]), self.tcx.types.usize)
                    }
                }
            }
            ("Field", "try_convert") => {
                let a = self.fval(&args[0], fid)?;
                let tt = self.arg_ty(dt, 0);
                let Some(tf) = tt.and_then(|t| self.field_ty(t)) else { return unsup("try_convert target") };
                let r = if tf == fid {
                    a
                } else if let Some(c) = a.as_const() {
                    if c >= field_p(tf) {
                        return unsup("constant does not fit");
                    }
                    Poly::constant(tf, c)
                } else {
                    let t = a.as_atom().unwrap_or_else(|| intern(Term::P(a.clone())));
                    if a.as_atom().is_some() {
                        self.atom_fields.entry(t).or_insert(fid);
                    }
                    self.convert_atom(t, tf)
                };
                adt(dt, 0, vec![V::F(r)])
            }
            _ => return Ok(None),
        };
        Ok(Some(r))
    }

    // ------------------------------------------------------------------ equality

    pub fn eq_vals(&mut self, a: &V<'tcx>, b: &V<'tcx>) -> R<V<'tcx>> {
        let (a, b) = (self.deref_all(a)?, self.deref_all(b)?);
        match (&a, &b) {
            (V::Int(x), V::Int(y)) => Ok(self.boolv(x == y)),
            (V::F(x), V::F(y)) => Ok(self.field_eq(x, y)),
            (V::Str(x), V::Str(y)) => Ok(self.boolv(x == y)),
            (V::Seq(x), V::Seq(y)) => {
                if x.len() != y.len() {
                    return Ok(V::Int(0));
                }
                let mut acc = V::Int(1);
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.eq_vals(p, q)?;
                    if self.is_z(&e) {
                        if !self.z_decide(&e)? {
                            return Ok(V::Int(0));
                        }
                        continue;
                    }
                    acc = self.and(acc, e);
                }
                Ok(acc)
            }
            (V::Sym(..), V::Sym(..) | V::Int(_)) | (V::Int(_), V::Sym(..)) if self.z.on && (self.is_z(&a) || self.is_z(&b)) => {
                let t = self.tcx.types.u128;
                self.z_binop(rustc_middle::mir::BinOp::Eq, &a, &b, t, t)
            }
            (V::Adt(x), _) | (_, V::Adt(x)) => {
                if let ty::Adt(d, _) = x.ty.kind() {
                    if self.is_user(d.did()) {
                        if let Some(pe) = self.tcx.lang_items().eq_trait() {
                            let m = self.tcx.associated_item_def_ids(pe).iter().cloned().find(|&i| self.tcx.item_name(i).as_str() == "eq").unwrap();
                            let ga = self.tcx.mk_args(&[x.ty.into(), x.ty.into()]);
                            return self.call_def(m, ga, vec![ptr_to(a.clone()), ptr_to(b.clone())], self.tcx.types.bool, false);
                        }
                    }
                }
                let (k1, f1) = self.variant(&a)?;
                let (k2, f2) = self.variant(&b)?;
                if k1 != k2 {
                    return Ok(V::Int(0));
                }
                let mut acc = V::Int(1);
                for (p, q) in f1.iter().zip(f2.iter()) {
                    let e = self.eq_vals(p, q)?;
                    acc = self.and(acc, e);
                }
                Ok(acc)
            }
            (V::Map(_), V::Map(_)) | (V::Sym(..), _) | (_, V::Sym(..)) => {
                if let (V::Seq(_), V::Sym(..)) | (V::Sym(..), V::Seq(_)) = (&a, &b) {
                    let (x, y) = (self.materialize(&a)?, self.materialize(&b)?);
                    return self.eq_vals(&x, &y);
                }
                let (x, y) = (self.vkey(&a), self.vkey(&b));
                if x == y {
                    return Ok(V::Int(1));
                }
                Ok(V::Sym(app("==", sort2(x, y)), self.tcx.types.bool))
            }
            _ => unsup(format!("comparison of {} and {}", a.show_d(2), b.show_d(2))),
        }
    }
    pub fn and(&mut self, a: V<'tcx>, b: V<'tcx>) -> V<'tcx> {
        match (&a, &b) {
            (V::Int(0), _) | (_, V::Int(0)) => V::Int(0),
            (V::Int(_), _) => b,
            (_, V::Int(_)) => a,
            (V::Sym(x, t), V::Sym(y, _)) => V::Sym(app("&", sort2(*x, *y)), *t),
            _ => V::Int(0),
        }
    }

    // ------------------------------------------------------------------ iterators

    fn fcell(&self, f: V<'tcx>) -> V<'tcx> {
        V::Box(cell(f))
    }
    fn mk(&self, i: It<'tcx>) -> V<'tcx> {
        V::It(Rc::new(i))
    }
    pub fn to_iter(&mut self, v: V<'tcx>) -> R<V<'tcx>> {
        match &v {
            V::It(_) => Ok(v),
            V::Seq(s) => Ok(self.mk(It::Items(s.clone(), 0, s.len()))),
            V::Adt(a) => {
                let h = self.head(a.ty);
                match h.as_str() {
                    "Range" => Ok(self.mk(It::Range(a.f[0].int()? as i128, a.f[1].int()? as i128))),
                    "RangeInclusive" => Ok(self.mk(It::Range(a.f[0].int()? as i128, a.f[1].int()? as i128 + 1))),
                    "RangeFrom" => Ok(self.mk(It::Range(a.f[0].int()? as i128, i64::MAX as i128))),
                    "Chunks" | "Windows" => {
                        // rayon's parallel slices
                        let (mut k, mut p) = (None, None);
                        for x in &a.f {
                            match x {
                                V::Int(i) => k = Some(*i as usize),
                                V::Ref(_) => p = Some(self.base_ptr(x)?),
                                _ => {}
                            }
                        }
                        let (Some(k), Some(p)) = (k, p) else { return unsup(format!("iteration over {}", v.show_d(2))) };
                        let n = self.len_of(&p)?;
                        let win = h == "Windows";
                        let mut out = vec![];
                        let mut i = 0;
                        while i < n {
                            let e = (i + k).min(n);
                            if win && e - i < k {
                                break;
                            }
                            out.push(V::Ref(self.sub_ptr(&p, i, e)?));
                            i += if win { 1 } else { k };
                        }
                        let c = out.len();
                        Ok(self.mk(It::Items(Rc::new(out), 0, c)))
                    }
                    "Option" => {
                        let items: Vec<_> = if a.variant == 1 { vec![a.f[0].clone()] } else { vec![] };
                        let n = items.len();
                        Ok(self.mk(It::Items(Rc::new(items), 0, n)))
                    }
                    _ => unsup(format!("iteration over {}", v.show_d(2))),
                }
            }
            V::Map(m) => {
                let set = m.set;
                let items: Vec<_> = m
                    .ordered()
                    .into_iter()
                    .map(|(_, k, x)| if set { k } else { self.tup(vec![k, x]) })
                    .collect();
                let n = items.len();
                Ok(self.mk(It::Items(Rc::new(items), 0, n)))
            }
            V::Ref(p) => {
                let p = p.clone();
                // &mut I where I: Iterator — iterate the referenced iterator in place
                if let Some(P::Sub(..)) = p.path.last() {
                    let n = self.len_of(&p)?;
                    return Ok(self.mk(It::Refs(p, 0, n)));
                }
                let inner = self.get(&p)?;
                match inner {
                    V::It(_) => Ok(v),
                    V::Map(m) => {
                        let set = m.set;
                        let items: Vec<_> = m
                            .ordered()
                            .into_iter()
                            .map(|(kt, k, _)| {
                                let mut path = (*p.path).clone();
                                path.push(P::Entry(kt));
                                let vr = V::Ref(Ptr { cell: p.cell.clone(), path: Rc::new(path) });
                                if set { ptr_to(k) } else { self.tup(vec![ptr_to(k), vr]) }
                            })
                            .collect();
                        let n = items.len();
                        Ok(self.mk(It::Items(Rc::new(items), 0, n)))
                    }
                    V::Adt(a) if matches!(self.head(a.ty).as_str(), "Range" | "RangeInclusive") => self.to_iter(V::Adt(a)),
                    V::Adt(a) if self.head(a.ty) == "Option" => {
                        let r = self.as_ref_opt(&v, a.ty)?;
                        self.to_iter(r)
                    }
                    _ => {
                        let bp = self.base_ptr(&v)?;
                        let n = self.len_of(&bp)?;
                        Ok(self.mk(It::Refs(bp, 0, n)))
                    }
                }
            }
            V::Sym(_, t) => {
                if t.is_ref() || t.is_box() {
                    let p = self.base_ptr(&v)?;
                    return self.to_iter(V::Ref(p));
                }
                let m = self.materialize(&v)?;
                if let V::Sym(..) = m {
                    return unsup("iteration over a symbol");
                }
                self.to_iter(m)
            }
            V::Box(c) => {
                let c = c.clone();
                let x = c.borrow().clone();
                self.to_iter(x)
            }
            o => unsup(format!("iteration over {}", o.show_d(2))),
        }
    }
    pub fn it_next(&mut self, it: &mut V<'tcx>) -> R<Option<V<'tcx>>> {
        if let V::Ref(p) = it {
            let p = p.clone();
            let mut inner = self.get(&p)?;
            if !matches!(inner, V::It(_) | V::Ref(_)) {
                inner = self.to_iter(inner)?;
            }
            let r = self.it_next(&mut inner)?;
            self.set(&p, inner)?;
            return Ok(r);
        }
        if !matches!(it, V::It(_)) {
            let n = self.to_iter(std::mem::replace(it, V::Uninit))?;
            *it = n;
            if let V::Ref(_) = it {
                return self.it_next(it);
            }
        }
        let V::It(rc) = it else { return unsup("not an iterator") };
        let i = Rc::make_mut(rc);
        match i {
            It::Items(v, a, b) => {
                if *a >= *b {
                    return Ok(None);
                }
                *a += 1;
                Ok(Some(v[*a - 1].clone()))
            }
            It::Refs(p, a, b) => {
                if *a >= *b {
                    return Ok(None);
                }
                *a += 1;
                let (p, k) = (p.clone(), *a - 1);
                Ok(Some(V::Ref(self.index_ptr(&p, k))))
            }
            It::Range(a, b) => {
                if *a >= *b {
                    return Ok(None);
                }
                *a += 1;
                Ok(Some(V::Int((*a - 1) as u128)))
            }
            It::Map(x, f) => match self.it_next(x)? {
                Some(v) => Ok(Some(self.call_value(&f.clone(), vec![v])?)),
                None => Ok(None),
            },
            It::Filter(x, f) => loop {
                match self.it_next(x)? {
                    None => return Ok(None),
                    Some(v) => {
                        let r = self.call_value(&f.clone(), vec![ptr_to(v.clone())])?;
                        if self.truth(&r)? {
                            return Ok(Some(v));
                        }
                    }
                }
            },
            It::FilterMap(x, f) => loop {
                match self.it_next(x)? {
                    None => return Ok(None),
                    Some(v) => {
                        let r = self.call_value(&f.clone(), vec![v])?;
                        let (k, fl) = self.variant(&r)?;
                        if k == 1 {
                            return Ok(Some(fl[0].clone()));
                        }
                    }
                }
            },
            It::FlatMap(x, f, cur) => loop {
                if let Some(c) = cur {
                    if let Some(v) = self.it_next(c)? {
                        return Ok(Some(v));
                    }
                    *cur = None;
                }
                match self.it_next(x)? {
                    None => return Ok(None),
                    Some(v) => {
                        let r = match f {
                            Some(f) => self.call_value(&f.clone(), vec![v])?,
                            None => v,
                        };
                        let r = self.to_iter(r)?;
                        *cur = Some(r);
                    }
                }
            },
            It::Zip(a, b) => {
                let Some(x) = self.it_next(a)? else { return Ok(None) };
                let Some(y) = self.it_next(b)? else { return Ok(None) };
                Ok(Some(self.tup(vec![x, y])))
            }
            It::Enumerate(a, n) => match self.it_next(a)? {
                None => Ok(None),
                Some(v) => {
                    *n += 1;
                    let k = *n - 1;
                    Ok(Some(self.tup(vec![V::Int(k as u128), v])))
                }
            },
            It::Rev(a) => {
                let x = a.clone();
                let mut items = vec![];
                let mut x = x;
                while let Some(v) = self.it_next(&mut x)? {
                    items.push(v);
                }
                items.reverse();
                let n = items.len();
                *i = It::Items(Rc::new(items), 0, n);
                self.it_next(it)
            }
            It::Chain(a, b) => {
                if let Some(x) = a {
                    if let Some(v) = self.it_next(x)? {
                        return Ok(Some(v));
                    }
                    *a = None;
                }
                self.it_next(b)
            }
            It::Skip(a, n) => {
                while *n > 0 {
                    *n -= 1;
                    if self.it_next(a)?.is_none() {
                        return Ok(None);
                    }
                }
                self.it_next(a)
            }
            It::Take(a, n) => {
                if *n == 0 {
                    return Ok(None);
                }
                *n -= 1;
                self.it_next(a)
            }
            It::StepBy(a, n, first) => {
                if *first {
                    *first = false;
                    return self.it_next(a);
                }
                for _ in 0..*n - 1 {
                    if self.it_next(a)?.is_none() {
                        return Ok(None);
                    }
                }
                self.it_next(a)
            }
            It::Cloned(a) => match self.it_next(a)? {
                None => Ok(None),
                Some(V::Ref(p)) => {
                    let v = self.get(&p)?;
                    Ok(Some(self.deep_clone(&v)))
                }
                Some(V::Sym(t, ty)) => match ty.kind() {
                    ty::Ref(_, inner, _) => Ok(Some(self.sym(t, *inner))),
                    _ => unsup("cloned"),
                },
                Some(o) => Ok(Some(o)),
            },
            It::TakeWhile(a, f, done) => {
                if *done {
                    return Ok(None);
                }
                match self.it_next(a)? {
                    None => Ok(None),
                    Some(v) => {
                        let r = self.call_value(&f.clone(), vec![ptr_to(v.clone())])?;
                        if self.truth(&r)? {
                            Ok(Some(v))
                        } else {
                            *done = true;
                            Ok(None)
                        }
                    }
                }
            }
            It::SkipWhile(a, f, done) => loop {
                match self.it_next(a)? {
                    None => return Ok(None),
                    Some(v) => {
                        if *done {
                            return Ok(Some(v));
                        }
                        let r = self.call_value(&f.clone(), vec![ptr_to(v.clone())])?;
                        if !self.truth(&r)? {
                            *done = true;
                            return Ok(Some(v));
                        }
                    }
                }
            },
            It::Inspect(a, f) => match self.it_next(a)? {
                None => Ok(None),
                Some(v) => {
                    self.call_value(&f.clone(), vec![ptr_to(v.clone())])?;
                    Ok(Some(v))
                }
            },
            It::Cycle(v, k) => {
                if v.is_empty() {
                    return Ok(None);
                }
                *k += 1;
                Ok(Some(v[(*k - 1) % v.len()].clone()))
            }
            It::Repeat(v) => Ok(Some(v.clone())),
            It::Peekable(a, pk) => {
                if let Some(x) = pk.take() {
                    return Ok(x);
                }
                self.it_next(a)
            }
            It::Scan(a, st, f) => match self.it_next(a)? {
                None => Ok(None),
                Some(v) => {
                    let sr = V::Ref(Ptr { cell: st.clone(), path: Rc::new(vec![]) });
                    let r = self.call_value(&f.clone(), vec![sr, v])?;
                    let (k, fl) = self.variant(&r)?;
                    Ok(if k == 1 { Some(fl[0].clone()) } else { None })
                }
            },
            It::FromFn(f) => {
                let r = self.call_value(&f.clone(), vec![])?;
                let (k, fl) = self.variant(&r)?;
                Ok(if k == 1 { Some(fl[0].clone()) } else { None })
            }
            It::Successors(cur, f) => match cur.clone() {
                None => Ok(None),
                Some(v) => {
                    let r = self.call_value(&f.clone(), vec![ptr_to(v.clone())])?;
                    let (k, fl) = self.variant(&r)?;
                    *cur = if k == 1 { Some(fl[0].clone()) } else { None };
                    Ok(Some(v))
                }
            },
        }
    }
    pub fn drain_iter(&mut self, it: V<'tcx>) -> R<Vec<V<'tcx>>> {
        let mut it = self.to_iter(it)?;
        let mut out = vec![];
        while let Some(v) = self.it_next(&mut it)? {
            out.push(v);
            if out.len() > 2_000_000 {
                return unsup("unbounded iteration");
            }
        }
        Ok(out)
    }
    pub fn truth(&mut self, v: &V<'tcx>) -> R<bool> {
        match v {
            V::Int(i) => Ok(*i != 0),
            v if self.z.on && self.is_z(v) => self.z_decide(v),
            V::Sym(t, _) => Ok(self.decide(*t, 2) == 1),
            o => unsup(format!("condition {}", o.show_d(2))),
        }
    }
    pub fn deep_clone(&mut self, v: &V<'tcx>) -> V<'tcx> {
        match v {
            V::Box(c) => {
                let x = c.borrow().clone();
                V::Box(cell(self.deep_clone(&x)))
            }
            V::Adt(a) if a.f.iter().any(|x| matches!(x, V::Box(_) | V::Adt(_) | V::Seq(_))) => {
                let f = a.f.iter().map(|x| self.deep_clone(x)).collect();
                adt(a.ty, a.variant, f)
            }
            V::Seq(s) if s.iter().any(|x| matches!(x, V::Box(_) | V::Adt(_) | V::Seq(_))) => seq(s.iter().map(|x| self.deep_clone(x)).collect()),
            o => o.clone(),
        }
    }
    pub fn map_insert(&mut self, m: &mut MapV<'tcx>, k: V<'tcx>, v: V<'tcx>) -> Option<V<'tcx>> {
        let kt = self.vkey(&k);
        if let Some(e) = m.m.get_mut(&kt) {
            return Some(std::mem::replace(&mut e.2, v));
        }
        m.n += 1;
        m.m.insert(kt, (m.n, k, v));
        None
    }
    pub fn collect_into(&mut self, items: Vec<V<'tcx>>, dt: Ty<'tcx>) -> R<V<'tcx>> {
        let h = self.head(dt);
        match h.as_str() {
            "Vec" | "VecDeque" | "array" | "slice" => Ok(seq(items)),
            "Box" | "Rc" => Ok(V::Box(cell(seq(items)))),
            "HashSet" | "BTreeSet" => {
                let mut m = MapV { set: true, tree: h == "BTreeSet", ..Default::default() };
                for i in items {
                    let u = self.unit();
                    self.map_insert(&mut m, i, u);
                }
                Ok(V::Map(Rc::new(m)))
            }
            "HashMap" | "BTreeMap" => {
                let mut m = MapV { tree: h == "BTreeMap", ..Default::default() };
                for i in items {
                    let f = self.variant(&i)?.1;
                    self.map_insert(&mut m, f[0].clone(), f[1].clone());
                }
                Ok(V::Map(Rc::new(m)))
            }
            "Result" => {
                let inner = self.arg_ty(dt, 0).unwrap();
                let mut out = vec![];
                for i in items {
                    let (k, f) = self.variant(&i)?;
                    if k == 1 {
                        return Ok(adt(dt, 1, f));
                    }
                    out.push(f[0].clone());
                }
                let c = self.collect_into(out, inner)?;
                Ok(adt(dt, 0, vec![c]))
            }
            "Option" => {
                let inner = self.arg_ty(dt, 0).unwrap();
                let mut out = vec![];
                for i in items {
                    let (k, f) = self.variant(&i)?;
                    if k == 0 {
                        return Ok(self.none(dt));
                    }
                    out.push(f[0].clone());
                }
                let c = self.collect_into(out, inner)?;
                Ok(self.some(dt, c))
            }
            "String" => Ok(V::Sym(name("string"), dt)),
            _ => unsup(format!("collect into {}", dt)),
        }
    }
    fn range_bounds(&mut self, r: &V<'tcx>, n: usize) -> R<Option<(usize, usize)>> {
        let V::Adt(a) = r else { return Ok(None) };
        Ok(Some(match self.head(a.ty).as_str() {
            "Range" => (a.f[0].usz()?, a.f[1].usz()?),
            "RangeInclusive" => (a.f[0].usz()?, a.f[1].usz()? + 1),
            "RangeFrom" => (a.f[0].usz()?, n),
            "RangeTo" => (0, a.f[0].usz()?),
            "RangeToInclusive" => (0, a.f[0].usz()? + 1),
            "RangeFull" => (0, n),
            _ => return Ok(None),
        }))
    }

    // ------------------------------------------------------------------ std

    /// next draw of a seeded generator: a function of the seed and of the number of earlier draws
    pub fn rng_draw(&mut self, r: &V<'tcx>) -> R<Option<TermId>> {
        let Ok(mut p) = self.base_ptr(r) else { return Ok(None) };
        for _ in 0..4 {
            match self.get(&p)? {
                V::Ref(q) => p = q,
                V::Seq(s) if s.len() == 2 => {
                    let (V::Sym(t, ty), V::Int(n)) = (s[0].clone(), s[1].clone()) else { return Ok(None) };
                    self.set(&p, seq(vec![V::Sym(t, ty), V::Int(n + 1)]))?;
                    let k = self.vkey(&V::Int(n));
                    return Ok(Some(app("draw", vec![t, k])));
                }
                _ => return Ok(None),
            }
        }
        Ok(None)
    }
    pub fn std_model(&mut self, key: &str, d: DefId, ga: GenericArgsRef<'tcx>, _inst: Option<Instance<'tcx>>, args: &mut Vec<V<'tcx>>, dt: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        let (tr, m) = key.split_once("::").unwrap_or(("", key));
        let krate = self.tcx.crate_name(d.krate).to_string();
        let ok = |v: V<'tcx>| Ok(Some(v));
        if self.big_on {
            if let Some(v) = self.big_call(key, ga, args, dt)? {
                return ok(v);
            }
        }
        // --- iterators
        if matches!(
            tr,
            "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator" | "ParallelIterator" | "IndexedParallelIterator" | "Itertools" | "IntoIterator"
                | "IntoParallelIterator" | "IntoParallelRefIterator" | "IntoParallelRefMutIterator" | "FromIterator"
        ) {
            match m {
                "next" => {
                    let mut it = args[0].clone();
                    let r = self.it_next(&mut it)?;
                    return ok(self.opt(dt, r));
                }
                "next_back" => {
                    let p = match &args[0] {
                        V::Ref(p) => p.clone(),
                        _ => return unsup("next_back"),
                    };
                    let inner = self.get(&p)?;
                    let mut items = self.drain_iter(inner)?;
                    let r = items.pop();
                    let n = items.len();
                    let ni = self.mk(It::Items(Rc::new(items), 0, n));
                    self.set(&p, ni)?;
                    return ok(self.opt(dt, r));
                }
                "into_iter" | "into_par_iter" | "par_iter" | "par_iter_mut" | "by_ref" => {
                    let v = args[0].clone();
                    return ok(self.to_iter(v)?);
                }
                "map" | "filter" | "filter_map" | "flat_map" | "flat_map_iter" | "zip" | "zip_eq" | "enumerate" | "rev" | "chain" | "skip" | "take" | "step_by" | "cloned" | "copied"
                | "take_while" | "skip_while" | "inspect" | "cycle" | "peekable" | "scan" | "flatten" | "fuse" | "with_min_len" | "with_max_len" => {
                    let it = self.to_iter(args[0].clone())?;
                    let b = args.get(1).cloned();
                    let r = match m {
                        "map" => It::Map(it, self.fcell(b.unwrap())),
                        "filter" => It::Filter(it, self.fcell(b.unwrap())),
                        "filter_map" => It::FilterMap(it, self.fcell(b.unwrap())),
                        "flat_map" | "flat_map_iter" => It::FlatMap(it, Some(self.fcell(b.unwrap())), None),
                        "flatten" => It::FlatMap(it, None, None),
                        "zip" | "zip_eq" => {
                            let bi = self.to_iter(b.unwrap())?;
                            It::Zip(it, bi)
                        }
                        "enumerate" => It::Enumerate(it, 0),
                        "rev" => It::Rev(it),
                        "chain" => {
                            let bi = self.to_iter(b.unwrap())?;
                            It::Chain(Some(it), bi)
                        }
                        "skip" => It::Skip(it, b.unwrap().usz()?),
                        "take" => It::Take(it, b.unwrap().usz()?),
                        "step_by" => It::StepBy(it, b.unwrap().usz()?, true),
                        "cloned" | "copied" => It::Cloned(it),
                        "take_while" => It::TakeWhile(it, self.fcell(b.unwrap()), false),
                        "skip_while" => It::SkipWhile(it, self.fcell(b.unwrap()), false),
                        "inspect" => It::Inspect(it, self.fcell(b.unwrap())),
                        "cycle" => {
                            let items = self.drain_iter(it)?;
                            It::Cycle(Rc::new(items), 0)
                        }
                        "peekable" => It::Peekable(it, None),
                        "scan" => It::Scan(it, cell(b.unwrap()), self.fcell(args[2].clone())),
                        _ => return ok(it),
                    };
                    return ok(self.mk(r));
                }
                "collect" | "from_iter" | "collect_vec" => {
                    let items = self.drain_iter(args[0].clone())?;
                    return ok(self.collect_into(items, dt)?);
                }
                "collect_into_vec" => {
                    let items = self.drain_iter(args[0].clone())?;
                    let p = self.base_ptr(&args[1])?;
                    self.set(&p, seq(items))?;
                    return ok(self.unit());
                }
                "for_each" => {
                    let f = self.fcell(args[1].clone());
                    let mut it = self.to_iter(args[0].clone())?;
                    while let Some(v) = self.it_next(&mut it)? {
                        self.call_value(&f, vec![v])?;
                    }
                    return ok(self.unit());
                }
                "fold" => {
                    let f = self.fcell(args[2].clone());
                    let mut acc = args[1].clone();
                    let mut it = self.to_iter(args[0].clone())?;
                    while let Some(v) = self.it_next(&mut it)? {
                        acc = self.call_value(&f, vec![acc, v])?;
                    }
                    return ok(acc);
                }
                "reduce" if krate == "core" => {
                    let f = self.fcell(args[1].clone());
                    let mut it = self.to_iter(args[0].clone())?;
                    let Some(mut acc) = self.it_next(&mut it)? else { return ok(self.none(dt)) };
                    while let Some(v) = self.it_next(&mut it)? {
                        acc = self.call_value(&f, vec![acc, v])?;
                    }
                    return ok(self.some(dt, acc));
                }
                "reduce" => {
                    // rayon: identity, op
                    let f = self.fcell(args[2].clone());
                    let mut acc = self.call_value(&args[1].clone(), vec![])?;
                    let mut it = self.to_iter(args[0].clone())?;
                    while let Some(v) = self.it_next(&mut it)? {
                        acc = self.call_value(&f, vec![acc, v])?;
                    }
                    return ok(acc);
                }
                "all" | "any" => {
                    let f = self.fcell(args[1].clone());
                    let mut it = self.to_iter(args[0].clone())?;
                    let is_all = m == "all";
                    let mut acc = V::Int(is_all as u128);
                    while let Some(v) = self.it_next(&mut it)? {
                        let r = self.call_value(&f, vec![v])?;
                        if self.z.on && self.is_z(&r) {
                            if self.z_decide(&r)? != is_all {
                                return ok(V::Int(!is_all as u128));
                            }
                            continue;
                        }
                        if is_all {
                            acc = self.and(acc, r);
                            if let V::Int(0) = acc {
                                break;
                            }
                        } else {
                            acc = match (&acc, &r) {
                                (V::Int(1), _) | (_, V::Int(1)) => V::Int(1),
                                (V::Int(_), _) => r,
                                (_, V::Int(_)) => acc,
                                (V::Sym(x, t), V::Sym(y, _)) => V::Sym(app("|", sort2(*x, *y)), *t),
                                _ => return unsup("any"),
                            };
                            if let V::Int(1) = acc {
                                break;
                            }
                        }
                    }
                    if let V::Ref(_) = &args[0] {
                        // partially consumed iterators are not reused in practice
                    }
                    return ok(acc);
                }
                "find" | "position" | "find_map" => {
                    let f = self.fcell(args[1].clone());
                    let mut it = self.to_iter(args[0].clone())?;
                    let mut k = 0;
                    while let Some(v) = self.it_next(&mut it)? {
                        if m == "find_map" {
                            let r = self.call_value(&f, vec![v])?;
                            let (vk, fl) = self.variant(&r)?;
                            if vk == 1 {
                                return ok(self.some(dt, fl[0].clone()));
                            }
                            continue;
                        }
                        let a = if m == "find" { ptr_to(v.clone()) } else { v.clone() };
                        let r = self.call_value(&f, vec![a])?;
                        if self.truth(&r)? {
                            return ok(self.some(dt, if m == "find" { v } else { V::Int(k) }));
                        }
                        k += 1;
                    }
                    return ok(self.none(dt));
                }
                "count" => {
                    let n = self.drain_iter(args[0].clone())?.len();
                    return ok(V::Int(n as u128));
                }
                "len" | "exact_len" => {
                    let v = match &args[0] {
                        V::Ref(p) => self.get(&p.clone())?,
                        o => o.clone(),
                    };
                    let n = self.drain_iter(v)?.len();
                    return ok(V::Int(n as u128));
                }
                "last" => {
                    let r = self.drain_iter(args[0].clone())?.pop();
                    return ok(self.opt(dt, r));
                }
                "nth" => {
                    let k = args[1].usz()?;
                    let mut it = args[0].clone();
                    let mut r = None;
                    for _ in 0..=k {
                        r = self.it_next(&mut it)?;
                        if r.is_none() {
                            break;
                        }
                    }
                    return ok(self.opt(dt, r));
                }
                "sum" | "product" => {
                    let items = self.drain_iter(args[0].clone())?;
                    let mut acc: Option<V<'tcx>> = None;
                    for i in items {
                        let i = self.deref_all(&i)?;
                        acc = Some(match (acc, i) {
                            (None, x) => x,
                            (Some(V::Int(a)), V::Int(b)) => V::Int(if m == "sum" { a + b } else { a * b }),
                            (Some(V::F(a)), V::F(b)) => V::F(if m == "sum" { a.add(&b) } else { a.mul(&b) }),
                            (Some(V::Adt(a)), V::Adt(b)) if self.head(a.ty) == "BigUint" => {
                                let t = a.ty;
                                match (self.big_of(&V::Adt(a))?, self.big_of(&V::Adt(b))?) {
                                    (Some(a), Some(b)) => self.big_val(&if m == "sum" { a + b } else { a * b }, t),
                                    _ => return unsup("sum of big integers"),
                                }
                            }
                            (Some(a), b) => {
                                let op = if m == "sum" { rustc_middle::mir::BinOp::Add } else { rustc_middle::mir::BinOp::Mul };
                                self.binop(op, a, b, dt, dt)?
                            }
                        });
                    }
                    return match acc {
                        Some(v) => ok(v),
                        None => match self.field_ty(dt) {
                            Some(f) => ok(V::F(Poly::int(f, (m == "product") as u64))),
                            None if self.head(dt) == "BigUint" => ok(self.big_val(&BigUint::from((m == "product") as u32), dt)),
                            None => ok(V::Int((m == "product") as u128)),
                        },
                    };
                }
                "max" | "min" => {
                    let items = self.drain_iter(args[0].clone())?;
                    let mut best: Option<(u128, V<'tcx>)> = None;
                    for i in items {
                        let k = self.deref_all(&i)?.int()?;
                        let better = match &best {
                            None => true,
                            Some((b, _)) => if m == "max" { k >= *b } else { k < *b },
                        };
                        if better {
                            best = Some((k, i));
                        }
                    }
                    return ok(self.opt(dt, best.map(|x| x.1)));
                }
                "unzip" => {
                    let items = self.drain_iter(args[0].clone())?;
                    let (mut a, mut b) = (vec![], vec![]);
                    for i in items {
                        let f = self.variant(&i)?.1;
                        a.push(f[0].clone());
                        b.push(f[1].clone());
                    }
                    return ok(self.tup(vec![seq(a), seq(b)]));
                }
                "partition" => {
                    let f = self.fcell(args[1].clone());
                    let items = self.drain_iter(args[0].clone())?;
                    let (mut a, mut b) = (vec![], vec![]);
                    for i in items {
                        let r = self.call_value(&f, vec![ptr_to(i.clone())])?;
                        if self.truth(&r)? { a.push(i) } else { b.push(i) }
                    }
                    return ok(self.tup(vec![seq(a), seq(b)]));
                }
                "multi_cartesian_product" => {
                    let items = self.drain_iter(args[0].clone())?;
                    let mut lists = vec![];
                    for i in items {
                        lists.push(self.drain_iter(i)?);
                    }
                    let mut out: Vec<Vec<V<'tcx>>> = vec![vec![]];
                    for l in lists {
                        let mut n = vec![];
                        for o in &out {
                            for x in &l {
                                let mut c = o.clone();
                                c.push(x.clone());
                                n.push(c);
                            }
                        }
                        out = n;
                    }
                    let items: Vec<_> = out.into_iter().map(seq).collect();
                    let n = items.len();
                    return ok(self.mk(It::Items(Rc::new(items), 0, n)));
                }
                "size_hint" => return Ok(None),
                _ => return unsup(format!("iterator method {}", key)),
            }
        }
        match key {
            "boxed::box_assume_init_into_vec_unsafe" | "Box::assume_init" | "slice::into_vec" => match &args[0] {
                V::Box(c) => {
                    let x = c.borrow().clone();
                    return if m == "assume_init" { ok(args[0].clone()) } else { ok(x) };
                }
                o => return unsup(format!("box {}", o.show_d(2))),
            },
            "Box::new_uninit" => return ok(V::Box(cell(V::Uninit))),
            "Box::new" | "Box::pin" => return ok(V::Box(cell(args[0].clone()))),
            "Rc::new" | "Arc::new" => return ok(V::Shared(cell(args[0].clone()))),
            "Mutex::new" | "RefCell::new" | "Cell::new" | "RwLock::new" => return ok(V::Box(cell(args[0].clone()))),
            "Mutex::lock" | "RefCell::borrow_mut" | "RefCell::borrow" | "RwLock::read" | "RwLock::write" => {
                let p = self.base_ptr(&args[0])?;
                let r = V::Ref(p);
                return ok(if m.starts_with("borrow") { r } else { adt(dt, 0, vec![r]) });
            }
            "Mutex::into_inner" => {
                let v = self.deref_all(&args[0])?;
                return ok(adt(dt, 0, vec![v]));
            }
            "Vec::new" | "VecDeque::new" => return ok(seq(vec![])),
            "Vec::with_capacity" => return ok(seq(vec![])),
            "HashMap::new" | "BTreeMap::new" | "HashMap::with_capacity" => return ok(V::Map(Rc::new(MapV { tree: key.starts_with("BTree"), ..Default::default() }))),
            "HashSet::new" | "BTreeSet::new" | "HashSet::with_capacity" => return ok(V::Map(Rc::new(MapV { set: true, tree: key.starts_with("BTree"), ..Default::default() }))),
            "String::new" => return ok(V::Sym(name("string"), dt)),
            "vec::from_elem" => {
                let n = args[1].usz()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.deep_clone(&args[0].clone()));
                }
                return ok(seq(v));
            }
            "mem::swap" => {
                let (p, q) = (self.base_ptr(&args[0])?, self.base_ptr(&args[1])?);
                let (a, b) = (self.get(&p)?, self.get(&q)?);
                self.set(&p, b)?;
                self.set(&q, a)?;
                return ok(self.unit());
            }
            "mem::replace" | "mem::take" => {
                let V::Ref(p) = &args[0] else { return unsup("mem::replace") };
                let p = p.clone();
                let old = self.get(&p)?;
                let new = if m == "take" { self.default_of(dt)? } else { args[1].clone() };
                self.set(&p, new)?;
                return ok(old);
            }
            "mem::drop" | "mem::forget" => return ok(self.unit()),
            "mem::size_of" => {
                let t = ga.type_at(0);
                if let Ok(l) = self.tcx.layout_of(self.te.as_query_input(t)) {
                    return ok(V::Int(l.size.bytes() as u128));
                }
                return unsup("size_of");
            }
            "intrinsics::discriminant_value" | "mem::discriminant" => {
                let p = self.base_ptr(&args[0])?;
                return ok(self.discriminant(&p)?);
            }
            "hint::must_use" | "__private::must_use" | "hint::black_box" | "convert::identity" => return ok(args[0].clone()),
            "__private::not" => {
                let a0 = self.deref_all(&args[0])?;
                return match &a0 {
                    V::Int(i) => ok(V::Int(1 - *i)),
                    V::Sym(t, ty) => ok(V::Sym(not_term(*t), *ty)),
                    o => unsup(format!("not {}", o.show_d(2))),
                }
            }
            "panicking::unreachable_display" => return Err(Stop::Panic("unreachable".into())),
            "log::max_level" => return ok(V::Sym(name("log_level"), dt)),
            "TypeId::of" => {
                let t = ga.type_at(0);
                return ok(V::Sym(name(&format!("typeid {}", t)), dt));
            }
            "any::type_name" => return ok(V::Str(ga.type_at(0).to_string().into())),
            "SeedableRng::seed_from_u64" | "SeedableRng::from_seed" => {
                let k = self.vkey(&args[0].clone());
                let t = app(&format!("rng:{}", m), vec![k]);
                return ok(seq(vec![V::Sym(t, dt), V::Int(0)]));
            }
            "RngCore::next_u32" | "RngCore::next_u64" | "Rng::gen" => {
                if let Some(t) = self.rng_draw(&args[0].clone())? {
                    return ok(V::Sym(app(&format!("draw:{}", dt), vec![t]), dt));
                }
            }
            "iter::repeat" => return ok(self.mk(It::Repeat(args[0].clone()))),
            "iter::once" => return ok(self.mk(It::Items(Rc::new(vec![args[0].clone()]), 0, 1))),
            "iter::empty" => return ok(self.mk(It::Items(Rc::new(vec![]), 0, 0))),
            "iter::from_fn" => {
                let f = self.fcell(args[0].clone());
                return ok(self.mk(It::FromFn(f)));
            }
            "successors::successors" | "iter::successors" => {
                let (k, f) = self.variant(&args[0].clone())?;
                let c = if k == 1 { Some(f[0].clone()) } else { None };
                let fc = self.fcell(args[1].clone());
                return ok(self.mk(It::Successors(c, fc)));
            }
            "cmp::min" | "cmp::max" | "Ord::min" | "Ord::max" => {
                if let (Ok(a), Ok(b)) = (args[0].int(), args[1].int()) {
                    return ok(V::Int(if m == "min" { a.min(b) } else { a.max(b) }));
                }
                if let (V::Sym(..) | V::Int(_), V::Sym(..) | V::Int(_)) = (&args[0], &args[1]) {
                    let (a, b) = (self.vkey(&args[0].clone()), self.vkey(&args[1].clone()));
                    return ok(V::Sym(app(m, sort2(a, b)), dt));
                }
                return unsup(key);
            }
            "Ord::cmp" | "PartialOrd::partial_cmp" => {
                let (a, b) = (self.deref_all(&args[0])?, self.deref_all(&args[1])?);
                if let (V::Int(x), V::Int(y)) = (&a, &b) {
                    let st = ga.type_at(0);
                    let signed = st.is_signed();
                    let o = if signed { (*x as i128).cmp(&(*y as i128)) } else { x.cmp(y) };
                    let r = (o as i8 + 1) as u32;
                    if m == "cmp" {
                        return ok(adt(dt, r, vec![]));
                    }
                    let it = self.arg_ty(dt, 0).unwrap();
                    return ok(self.some(dt, adt(it, r, vec![])));
                }
                if self.is_z(&a) || self.is_z(&b) {
                    let t = self.tcx.types.u128;
                    let r = (self.z_cmp(&a, &b, t)? + 1) as u32;
                    if m == "cmp" {
                        return ok(adt(dt, r, vec![]));
                    }
                    let it = self.arg_ty(dt, 0).unwrap();
                    return ok(self.some(dt, adt(it, r, vec![])));
                }
                if m == "cmp" {
                    let k = vec![self.vkey(&a), self.vkey(&b)];
                    return ok(V::Sym(app("cmp", k), dt));
                }
                return Ok(None);
            }
            "PartialOrd::le" | "PartialOrd::lt" | "PartialOrd::ge" | "PartialOrd::gt" => {
                let st = ga.type_at(0);
                if self.head(st).starts_with("Level") {
                    return ok(V::Int(0));
                }
                let (a, b) = (self.deref_all(&args[0])?, self.deref_all(&args[1])?);
                use rustc_middle::mir::BinOp;
                let op = match m {
                    "le" => BinOp::Le,
                    "lt" => BinOp::Lt,
                    "ge" => BinOp::Ge,
                    _ => BinOp::Gt,
                };
                if let (V::Int(_) | V::Sym(..), V::Int(_) | V::Sym(..)) = (&a, &b) {
                    return ok(self.binop(op, a, b, st, dt)?);
                }
                return Ok(None);
            }
            "PartialEq::eq" => return ok(self.eq_vals(&args[0].clone(), &args[1].clone())?),
            "PartialEq::ne" => {
                let r = self.eq_vals(&args[0].clone(), &args[1].clone())?;
                return match r {
                    V::Int(i) => ok(V::Int(1 - i)),
                    V::Sym(t, ty) => ok(V::Sym(not_term(t), ty)),
                    o => ok(o),
                };
            }
            "Clone::clone" => {
                let v = match &args[0] {
                    V::Ref(p) => self.get(&p.clone())?,
                    V::Sym(t, ty) => match ty.kind() {
                        ty::Ref(_, inner, _) => self.sym(*t, *inner),
                        _ => args[0].clone(),
                    },
                    o => o.clone(),
                };
                return ok(self.deep_clone(&v));
            }
            "ToOwned::to_owned" | "slice::to_vec" | "Vec::into_boxed_slice" => {
                let v = self.deref_all(&args[0])?;
                let v = match v {
                    V::Sym(..) => self.materialize(&v)?,
                    o => o,
                };
                return ok(self.deep_clone(&v));
            }
            "Lazy::new" | "LazyLock::new" | "LazyCell::new" => {
                let f = args[0].clone();
                return ok(adt(dt, 0, vec![f]));
            }
            "Default::default" => return ok(self.default_of(dt)?),
            "Deref::deref" | "DerefMut::deref_mut" | "AsRef::as_ref" | "AsMut::as_mut" | "Borrow::borrow" | "BorrowMut::borrow_mut" | "Vec::as_slice" | "Vec::as_mut_slice"
            | "slice::as_slice" | "array::as_slice" => {
                let v = args[0].clone();
                if let V::Ref(p) = &v {
                    // lazily initialised statics: run the initialiser on first use
                    if let Ok(V::Adt(a)) = self.get(&p.clone()) {
                        if matches!(self.head(a.ty).as_str(), "Lazy" | "LazyLock" | "LazyCell") {
                            if a.variant == 0 {
                                let x = self.call_value(&a.f[0].clone(), vec![])?;
                                let n = adt(a.ty, 1, vec![V::Shared(cell(x))]);
                                self.set(p, n)?;
                            }
                            let V::Adt(a) = self.get(&p.clone())? else { return unsup("lazy") };
                            if let V::Shared(c) = &a.f[0] {
                                return ok(V::Ref(Ptr { cell: c.clone(), path: Rc::new(vec![]) }));
                            }
                        }
                    }
                }
                if let V::Ref(p) = &v {
                    if let Some(P::Sub(..)) = p.path.last() {
                        return ok(v);
                    }
                    let inner = self.with(&p.clone(), |s, x| {
                        if let V::Sym(..) = x {
                            let mm = s.materialize(x)?;
                            *x = mm;
                        }
                        Ok(x.clone())
                    })?;
                    return match inner {
                        V::Box(c) | V::Shared(c) => ok(V::Ref(Ptr { cell: c, path: Rc::new(vec![]) })),
                        V::Ref(q) => ok(V::Ref(q)),
                        _ => ok(v),
                    };
                }
                let p = self.base_ptr(&v)?;
                return ok(V::Ref(p));
            }
            "Index::index" | "IndexMut::index_mut" => {
                let p = self.base_ptr(&args[0])?;
                if let V::Int(i) = &args[1] {
                    let n = self.len_of(&p)?;
                    if *i as usize >= n {
                        return Err(Stop::Panic(format!("index {} out of bounds (len {})", i, n)));
                    }
                    return ok(V::Ref(self.index_ptr(&p, *i as usize)));
                }
                let isadt = matches!(&args[1], V::Adt(_));
                if isadt {
                    let n = self.len_of(&p)?;
                    if let Some((a, b)) = self.range_bounds(&args[1].clone(), n)? {
                        return ok(V::Ref(self.sub_ptr(&p, a, b)?));
                    }
                }
                let mv = self.get(&p)?;
                if let V::Map(mm) = &mv {
                    let kv = self.deref_all(&args[1])?;
                    let k = self.vkey(&kv);
                    if !mm.m.contains_key(&k) {
                        return Err(Stop::Panic("missing map key".into()));
                    }
                    let mut path = (*p.path).clone();
                    path.push(P::Entry(k));
                    return ok(V::Ref(Ptr { cell: p.cell, path: Rc::new(path) }));
                }
                return unsup(format!("index of {} by {}", mv.show_d(2), args[1].show_d(2)));
            }
            "RangeInclusive::new" => return ok(adt(dt, 0, vec![args[0].clone(), args[1].clone(), V::Int(0)])),
            "Try::branch" => {
                let (k, f) = self.variant(&args[0].clone())?;
                let st = ga.type_at(0);
                let is_opt = self.head(st) == "Option";
                let cont = if is_opt { k == 1 } else { k == 0 };
                if cont {
                    return ok(adt(dt, 0, vec![f[0].clone()]));
                }
                let bt = self.arg_ty(dt, 0).unwrap();
                let res = adt(bt, k, f);
                return ok(adt(dt, 1, vec![res]));
            }
            "Try::from_output" => {
                return ok(adt(dt, if self.head(dt) == "Option" { 1 } else { 0 }, vec![args[0].clone()]));
            }
            "FromResidual::from_residual" => {
                if self.head(dt) == "Option" {
                    return ok(self.none(dt));
                }
                let (_, f) = self.variant(&args[0].clone())?;
                let et = self.arg_ty(dt, 1).unwrap();
                let e = match &f[..] {
                    [V::Sym(t, ty)] if *ty != et => V::Sym(*t, et),
                    [x] => x.clone(),
                    _ => V::Sym(name("error"), et),
                };
                return ok(adt(dt, 1, vec![e]));
            }
            "TryInto::try_into" | "TryFrom::try_from" => {
                let v = self.deref_all(&args[0])?;
                let tt = self.arg_ty(dt, 0).unwrap();
                match (&v, tt.kind()) {
                    (V::Seq(_) | V::Sym(..), ty::Array(_, n)) => {
                        let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                        let v = self.materialize(&v)?;
                        let s = v.items()?;
                        if s.len() == n {
                            return ok(adt(dt, 0, vec![v.clone()]));
                        }
                        return ok(adt(dt, 1, vec![v.clone()]));
                    }
                    (V::Seq(_), ty::Ref(_, inner, _)) if inner.is_array() => return ok(adt(dt, 0, vec![args[0].clone()])),
                    (V::Int(i), _) if tt.is_integral() => {
                        let (b, _) = self.int_bits(tt);
                        if b >= 128 || *i >> b == 0 {
                            return ok(adt(dt, 0, vec![V::Int(*i)]));
                        }
                        return ok(adt(dt, 1, vec![V::Sym(name("error"), self.tcx.types.unit)]));
                    }
                    _ => return Ok(None),
                }
            }
            "From::from" => {
                let v = args[0].clone();
                if let (V::Int(_), true) = (&v, dt.is_integral() || dt.is_char()) {
                    return ok(v);
                }
                if ga.len() >= 2 && ga[1].as_type() == Some(ga.type_at(0)) {
                    return ok(v);
                }
                match self.head(dt).as_str() {
                    "Vec" => {
                        let v = self.deref_all(&v)?;
                        return ok(self.materialize(&v)?);
                    }
                    "Box" => return ok(if matches!(v, V::Box(_)) { v } else { V::Box(cell(v)) }),
                    "Error" | "String" => return ok(V::Sym(name("error"), dt)),
                    "Option" => return ok(self.some(dt, v)),
                    _ => {}
                }
                return Ok(None);
            }
            "Into::into" => {
                if ga.len() >= 2 && ga[1].as_type() == Some(ga.type_at(0)) {
                    return ok(args[0].clone());
                }
                if let (V::Int(_), true) = (&args[0], dt.is_integral()) {
                    return ok(args[0].clone());
                }
                return Ok(None);
            }
            "Extend::extend" | "Vec::extend_from_slice" | "Vec::append" => {
                let p = self.base_ptr(&args[0])?;
                let mut items = if m == "append" {
                    let q = self.base_ptr(&args[1])?;
                    let s = self.get_seq(&q)?;
                    self.set(&q, seq(vec![]))?;
                    (*s).clone()
                } else {
                    self.drain_iter(args[1].clone())?
                };
                let cur = self.get(&p)?;
                if let V::Map(_) = cur {
                    let V::Map(mut mm) = cur else { unreachable!() };
                    {
                        let mref = Rc::make_mut(&mut mm);
                        for i in items {
                            if mref.set {
                                let u = self.unit();
                                self.map_insert(mref, i, u);
                            } else {
                                let f = self.variant(&i)?.1;
                                self.map_insert(mref, f[0].clone(), f[1].clone());
                            }
                        }
                    }
                    self.set(&p, V::Map(mm))?;
                    return ok(self.unit());
                }
                // extending a Vec<T> with references copies the elements
                let elem_is_ref = match self.arg_ty(ga.types().next().unwrap_or(dt), 0) {
                    Some(t) => t.is_ref(),
                    None => false,
                };
                if !elem_is_ref {
                    let mut out = vec![];
                    for i in items {
                        match i {
                            V::Ref(q) => {
                                let v = self.get(&q)?;
                                out.push(self.deep_clone(&v))
                            }
                            o => out.push(o),
                        }
                    }
                    items = out;
                }
                self.with(&p, |s, v| {
                    s.force_seq(v)?;
                    let V::Seq(q) = v else { return unsup("extend") };
                    Rc::make_mut(q).extend(items);
                    Ok(())
                })?;
                return ok(self.unit());
            }
            "Argument::new_display" | "Argument::new_debug" | "Arguments::new" | "Arguments::from_str" | "fmt::format" => return ok(V::Sym(name("fmt"), dt)),
            "io::_print" | "stdio::_print" | "stdio::_eprint" | "log::__private_api_log" | "__private_api::log" => return ok(self.unit()),
            "Instant::now" | "Instant::elapsed" | "Duration::as_secs_f32" | "Duration::as_secs_f64" => return ok(V::Sym(name("time"), dt)),
            "str::len" => {
                if let V::Str(s) = &args[0] {
                    return ok(V::Int(s.len() as u128));
                }
                return Ok(None);
            }
            "str::as_bytes" | "str::as_ptr" => {
                if let V::Str(s) = &args[0] {
                    return ok(ptr_to(seq(s.bytes().map(|b| V::Int(b as u128)).collect())));
                }
                return Ok(None);
            }
            _ => {}
        }
        match tr {
            "Option" | "Result" => return self.option_model(key, ga, args, dt, d),
            "Vec" | "slice" | "array" | "VecDeque" => return self.vec_model(key, ga, args, dt, d),
            "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" | "Entry" => return self.map_model(key, ga, args, dt),
            _ => {}
        }
        // integers
        if matches!(tr, "usize" | "u64" | "u32" | "u128" | "u8" | "u16" | "i32" | "i64" | "i128" | "isize") {
            return self.int_model(key, args, dt);
        }
        if matches!(
            tr,
            "Add" | "Sub" | "Mul" | "Div" | "Rem" | "BitAnd" | "BitOr" | "BitXor" | "Shl" | "Shr" | "AddAssign" | "SubAssign" | "MulAssign" | "DivAssign" | "ShrAssign" | "ShlAssign"
                | "BitOrAssign" | "BitAndAssign" | "BitXorAssign"
        ) {
            use rustc_middle::mir::BinOp::*;
            let op = match tr.trim_end_matches("Assign") {
                "Add" => Add,
                "Sub" => Sub,
                "Mul" => Mul,
                "Div" => Div,
                "Rem" => Rem,
                "BitAnd" => BitAnd,
                "BitOr" => BitOr,
                "BitXor" => BitXor,
                "Shl" => Shl,
                _ => Shr,
            };
            let (a, b) = (self.deref_all(&args[0])?, self.deref_all(&args[1])?);
            let t = match ga.type_at(0).kind() {
                ty::Ref(_, t, _) => *t,
                _ => ga.type_at(0),
            };
            if t.is_integral() {
                let r = self.binop(op, a, b, t, t)?;
                if tr.ends_with("Assign") {
                    let p = self.base_ptr(&args[0])?;
                    self.set(&p, r)?;
                    return ok(self.unit());
                }
                return ok(r);
            }
            if self.head(t) == "BigUint" {
                return ok(self.opaque_call(key, args, dt)?);
            }
        }
        if tr == "ChunksExact" && m == "remainder" {
            let it = self.deref_all(&args[0])?;
            if let V::It(i) = &it {
                if let It::Items(v, _, b) = &**i {
                    if v.len() > *b {
                        return ok(v[v.len() - 1].clone());
                    }
                }
            }
            return unsup("remainder of an iterator");
        }
        if matches!(krate.as_str(), "anyhow" | "log" | "blake3" | "num_bigint" | "num" | "num_integer" | "num_traits" | "rand" | "rand_chacha" | "rand_core" | "serde" | "serde_cbor" | "rayon_core") {
            return ok(self.opaque_call(key, args, dt)?);
        }
        if matches!(tr, "ToString" | "Display" | "Debug" | "Formatter" | "fmt") {
            return ok(V::Sym(name("fmt"), dt));
        }
        Ok(None)
    }

    pub fn big_val(&mut self, x: &BigUint, ty: Ty<'tcx>) -> V<'tcx> {
        let d: Vec<V<'tcx>> = x.to_u32_digits().into_iter().map(|d| V::Int(d as u128)).collect();
        adt(ty, 0, vec![seq(d)])
    }
    pub fn big_of(&mut self, v: &V<'tcx>) -> R<Option<BigUint>> {
        let v = self.deref_all(v)?;
        Ok(match &v {
            V::Int(i) => Some(BigUint::from(*i)),
            V::Adt(a) if self.head(a.ty) == "BigUint" && a.f.len() == 1 => {
                let s = self.seq_items(&a.f[0].clone())?;
                let mut l = vec![];
                for x in s.iter() {
                    l.push(x.int()? as u32);
                }
                Some(BigUint::new(l))
            }
            _ => None,
        })
    }
    /// arithmetic of big integers that are constants
    fn big_call(&mut self, key: &str, ga: GenericArgsRef<'tcx>, args: &[V<'tcx>], dt: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        use num_integer::Integer;
        let (tr, m) = key.split_once("::").unwrap_or(("", key));
        let own = tr == "BigUint"
            || ga.types().next().map_or(false, |t| {
                let t = t.peel_refs();
                matches!(t.kind(), ty::Adt(..)) && self.head(t) == "BigUint"
            });
        if !own {
            return Ok(None);
        }
        let mut a = vec![];
        if tr == "BigUint" && matches!(m, "new" | "from_slice" | "from_bytes_le" | "from_bytes_be") {
            let s = self.seq_items(&args[0])?;
            let mut l = vec![];
            for x in s.iter() {
                match x {
                    V::Int(i) => l.push(*i as u32),
                    _ => return Ok(None),
                }
            }
            let b: Vec<u8> = l.iter().map(|x| *x as u8).collect();
            let r = match m {
                "from_bytes_le" => BigUint::from_bytes_le(&b),
                "from_bytes_be" => BigUint::from_bytes_be(&b),
                _ => BigUint::new(l),
            };
            return Ok(Some(self.big_val(&r, dt)));
        }
        for x in args {
            match self.big_of(x)? {
                Some(b) => a.push(b),
                None => return Ok(None),
            }
        }
        let big = match (tr, m) {
            ("Zero", "zero") => Some(BigUint::zero()),
            ("One", "one") => Some(BigUint::one()),
            ("From", "from") | ("Clone", "clone") => Some(a[0].clone()),
            ("Add", _) | ("AddAssign", _) => Some(&a[0] + &a[1]),
            ("Mul", _) | ("MulAssign", _) => Some(&a[0] * &a[1]),
            ("Sub", _) | ("SubAssign", _) => {
                if a[0] < a[1] {
                    return Err(Stop::Panic("big integer subtraction underflows".into()));
                }
                Some(&a[0] - &a[1])
            }
            ("Div", _) | ("DivAssign", _) | ("Rem", _) | ("RemAssign", _) | ("Integer", "div_floor") | ("Integer", "mod_floor") => {
                if a[1].is_zero() {
                    return Err(Stop::Panic("big integer division by zero".into()));
                }
                Some(if tr.starts_with("Div") || m == "div_floor" { &a[0] / &a[1] } else { &a[0] % &a[1] })
            }
            ("Shl", _) | ("ShlAssign", _) => Some(&a[0] << a[1].to_usize().unwrap_or(0)),
            ("Shr", _) | ("ShrAssign", _) => Some(&a[0] >> a[1].to_usize().unwrap_or(0)),
            ("Ord", "min") => Some(a[0].clone().min(a[1].clone())),
            ("Ord", "max") => Some(a[0].clone().max(a[1].clone())),
            ("Integer", "gcd") => Some(a[0].gcd(&a[1])),
            ("Integer", "lcm") => Some(a[0].lcm(&a[1])),
            ("BigUint", "modpow") => Some(a[0].modpow(&a[1], &a[2])),
            _ => None,
        };
        if let Some(r) = big {
            if tr.ends_with("Assign") {
                let p = self.base_ptr(&args[0])?;
                let p0 = self.deref_all(&args[0])?;
                let V::Adt(o) = &p0 else { return unsup("big integer") };
                let v = self.big_val(&r, o.ty);
                self.set(&p, v)?;
                return Ok(Some(self.unit()));
            }
            return Ok(Some(self.big_val(&r, dt)));
        }
        if matches!(m, "div_rem" | "div_mod_floor") && tr == "Integer" {
            if a[1].is_zero() {
                return Err(Stop::Panic("big integer division by zero".into()));
            }
            let ty::Tuple(l) = dt.kind() else { return unsup("div_rem") };
            let (q, r) = a[0].div_rem(&a[1]);
            let f = vec![self.big_val(&q, l[0]), self.big_val(&r, l[0])];
            return Ok(Some(adt(dt, 0, f)));
        }
        let b = |x: bool| Ok(Some(V::Int(x as u128)));
        match (tr, m) {
            ("Zero", "is_zero") => b(a[0].is_zero()),
            ("One", "is_one") => b(a[0].is_one()),
            ("Integer", "is_even") => b(a[0].is_even()),
            ("Integer", "is_odd") => b(a[0].is_odd()),
            ("Integer", "is_multiple_of") | ("Integer", "divides") if a[1].is_zero() => Err(Stop::Panic("big integer division by zero".into())),
            ("Integer", "is_multiple_of") | ("Integer", "divides") => b((&a[0] % &a[1]).is_zero()),
            ("PartialEq", "eq") => b(a[0] == a[1]),
            ("PartialEq", "ne") => b(a[0] != a[1]),
            ("PartialOrd", "lt") => b(a[0] < a[1]),
            ("PartialOrd", "le") => b(a[0] <= a[1]),
            ("PartialOrd", "gt") => b(a[0] > a[1]),
            ("PartialOrd", "ge") => b(a[0] >= a[1]),
            ("Ord", "cmp") => Ok(Some(adt(dt, (a[0].cmp(&a[1]) as i8 + 1) as u32, vec![]))),
            ("BigUint", "bits") => Ok(Some(V::Int(a[0].bits() as u128))),
            ("BigUint", "to_u32_digits") => Ok(Some(seq(a[0].to_u32_digits().into_iter().map(|d| V::Int(d as u128)).collect()))),
            ("BigUint", "to_u64_digits") => Ok(Some(seq(a[0].to_u64_digits().into_iter().map(|d| V::Int(d as u128)).collect()))),
            ("BigUint", "to_bytes_le") => Ok(Some(seq(a[0].to_bytes_le().into_iter().map(|d| V::Int(d as u128)).collect()))),
            _ => Ok(None),
        }
    }
    fn opaque_call(&mut self, key: &str, args: &[V<'tcx>], dt: Ty<'tcx>) -> R<V<'tcx>> {
        if key.contains("anyhow") || key.starts_with("Error::") || key.starts_with("__private::format") || key.starts_with("Adhoc") {
            return Ok(V::Sym(name("error"), dt));
        }
        if dt.is_unit() {
            return Ok(self.unit());
        }
        self.uninterpreted(key, args, dt)
    }

    pub fn default_of(&mut self, dt: Ty<'tcx>) -> R<V<'tcx>> {
        if let Some(f) = self.field_ty(dt) {
            return Ok(V::F(Poly::zero(f)));
        }
        match self.head(dt).as_str() {
            "Vec" => Ok(seq(vec![])),
            "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" => {
                let h = self.head(dt);
                Ok(V::Map(Rc::new(MapV { set: h.ends_with("Set"), tree: h.starts_with("BTree"), ..Default::default() })))
            }
            "Option" => Ok(self.none(dt)),
            _ if dt.is_integral() || dt.is_bool() => Ok(V::Int(0)),
            _ => match dt.kind() {
                ty::Array(et, n) => {
                    let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                    let v = self.default_of(*et)?;
                    Ok(seq(vec![v; n]))
                }
                ty::Tuple(l) => {
                    let mut f = vec![];
                    for t in l.iter() {
                        f.push(self.default_of(t)?);
                    }
                    Ok(adt(dt, 0, f))
                }
                ty::Adt(..) => Ok(V::Sym(name(&format!("default:{}", dt)), dt)),
                _ => unsup(format!("default of {}", dt)),
            },
        }
    }

    fn option_model(&mut self, key: &str, ga: GenericArgsRef<'tcx>, args: &mut Vec<V<'tcx>>, dt: Ty<'tcx>, d: DefId) -> R<Option<V<'tcx>>> {
        let _ = (ga, d);
        let (tr, m) = key.split_once("::").unwrap();
        let is_opt = tr == "Option";
        let ok = |v: V<'tcx>| Ok(Some(v));
        match m {
            "as_ref" | "as_mut" | "as_deref" => return ok(self.as_ref_opt(&args[0].clone(), dt)?),
            "take" => {
                let V::Ref(p) = &args[0] else { return unsup("take") };
                let p = p.clone();
                let v = self.get(&p)?;
                self.set(&p, self.none(dt))?;
                return ok(v);
            }
            "replace" | "insert" => {
                let V::Ref(p) = &args[0] else { return unsup("replace") };
                let p = p.clone();
                let v = self.get(&p)?;
                let t = match &v {
                    V::Adt(a) => a.ty,
                    _ => dt,
                };
                self.set(&p, adt(t, 1, vec![args[1].clone()]))?;
                return ok(v);
            }
            _ => {}
        }
        let (k, f) = self.variant(&args[0].clone())?;
        let good = if is_opt { k == 1 } else { k == 0 };
        let payload = f.first().cloned();
        let gv = if is_opt { 1 } else { 0 };
        let r = match m {
            "unwrap" | "expect" => {
                if good {
                    payload.unwrap()
                } else {
                    return Err(Stop::Panic(format!("{} on a {}", key, if is_opt { "None" } else { "Err" })));
                }
            }
            "unwrap_err" | "expect_err" => {
                if good {
                    return Err(Stop::Panic(key.into()));
                }
                payload.unwrap()
            }
            "is_some" | "is_ok" => self.boolv(good),
            "is_none" | "is_err" => self.boolv(!good),
            "unwrap_or" => if good { payload.unwrap() } else { args[1].clone() },
            "unwrap_or_default" => if good { payload.unwrap() } else { self.default_of(dt)? },
            "unwrap_or_else" => {
                if good {
                    payload.unwrap()
                } else {
                    let a = if is_opt { vec![] } else { vec![payload.unwrap()] };
                    self.call_value(&args[1].clone(), a)?
                }
            }
            "map" => {
                if good {
                    let v = self.call_value(&args[1].clone(), vec![payload.unwrap()])?;
                    adt(dt, gv, vec![v])
                } else {
                    adt(dt, k, f)
                }
            }
            "map_err" => {
                if good {
                    adt(dt, 0, f)
                } else {
                    let et = self.arg_ty(dt, 1).unwrap();
                    adt(dt, 1, vec![V::Sym(name("error"), et)])
                }
            }
            "map_or" => {
                if good {
                    self.call_value(&args[2].clone(), vec![payload.unwrap()])?
                } else {
                    args[1].clone()
                }
            }
            "map_or_else" => {
                if good {
                    self.call_value(&args[2].clone(), vec![payload.unwrap()])?
                } else {
                    self.call_value(&args[1].clone(), if is_opt { vec![] } else { vec![payload.unwrap()] })?
                }
            }
            "and_then" => {
                if good {
                    self.call_value(&args[1].clone(), vec![payload.unwrap()])?
                } else {
                    adt(dt, k, f)
                }
            }
            "or_else" => {
                if good {
                    adt(dt, k, f)
                } else {
                    self.call_value(&args[1].clone(), if is_opt { vec![] } else { vec![payload.unwrap()] })?
                }
            }
            "or" => if good { adt(dt, k, f) } else { args[1].clone() },
            "and" => if good { args[1].clone() } else { adt(dt, k, f) },
            "ok" => self.opt(dt, if good { payload } else { None }),
            "err" => self.opt(dt, if good { None } else { payload }),
            "ok_or" => {
                if good {
                    adt(dt, 0, f)
                } else {
                    adt(dt, 1, vec![args[1].clone()])
                }
            }
            "ok_or_else" => {
                if good {
                    adt(dt, 0, f)
                } else {
                    let et = self.arg_ty(dt, 1).unwrap();
                    adt(dt, 1, vec![V::Sym(name("error"), et)])
                }
            }
            "cloned" | "copied" => {
                if good {
                    let v = match payload.unwrap() {
                        V::Ref(p) => self.get(&p)?,
                        o => o,
                    };
                    let v = self.deep_clone(&v);
                    adt(dt, gv, vec![v])
                } else {
                    adt(dt, k, f)
                }
            }
            "is_some_and" | "is_ok_and" => {
                if good {
                    self.call_value(&args[1].clone(), vec![payload.unwrap()])?
                } else {
                    V::Int(0)
                }
            }
            "filter" => {
                if good {
                    let r = self.call_value(&args[1].clone(), vec![ptr_to(payload.clone().unwrap())])?;
                    if self.truth(&r)? { adt(dt, k, f) } else { self.none(dt) }
                } else {
                    self.none(dt)
                }
            }
            "zip" => {
                let (k2, f2) = self.variant(&args[1].clone())?;
                if good && k2 == 1 {
                    let t = self.tup(vec![payload.unwrap(), f2[0].clone()]);
                    self.some(dt, t)
                } else {
                    self.none(dt)
                }
            }
            "iter" | "into_iter" => {
                let items: Vec<_> = if good { vec![payload.unwrap()] } else { vec![] };
                let n = items.len();
                V::It(Rc::new(It::Items(Rc::new(items), 0, n)))
            }
            _ => return Ok(None),
        };
        ok(r)
    }

    fn vec_model(&mut self, key: &str, ga: GenericArgsRef<'tcx>, args: &mut Vec<V<'tcx>>, dt: Ty<'tcx>, _d: DefId) -> R<Option<V<'tcx>>> {
        let _ = ga;
        let (_, m) = key.split_once("::").unwrap();
        let ok = |v: V<'tcx>| Ok(Some(v));
        match m {
            "iter" | "iter_mut" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                return ok(self.mk(It::Refs(p, 0, n)));
            }
            "len" => {
                let p = self.base_ptr(&args[0])?;
                return ok(V::Int(self.len_of(&p)? as u128));
            }
            "is_empty" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                return ok(self.boolv(n == 0));
            }
            "push" | "push_back" => {
                let p = self.base_ptr(&args[0])?;
                let x = args[1].clone();
                self.with(&p, |s, v| {
                    s.force_seq(v)?;
                    let V::Seq(q) = v else { return unsup("push") };
                    Rc::make_mut(q).push(x);
                    Ok(())
                })?;
                return ok(self.unit());
            }
            "pop" | "pop_back" => {
                let p = self.base_ptr(&args[0])?;
                let r = self.with(&p, |s, v| {
                    s.force_seq(v)?;
                    let V::Seq(q) = v else { return unsup("pop") };
                    Ok(Rc::make_mut(q).pop())
                })?;
                return ok(self.opt(dt, r));
            }
            "pop_front" | "remove" | "swap_remove" => {
                let p = self.base_ptr(&args[0])?;
                let i = if m == "pop_front" { 0 } else { args[1].usz()? };
                let r = self.with(&p, |s, v| {
                    s.force_seq(v)?;
                    let V::Seq(q) = v else { return unsup("remove") };
                    let q = Rc::make_mut(q);
                    if i >= q.len() {
                        return Ok(None);
                    }
                    Ok(Some(if m == "swap_remove" { q.swap_remove(i) } else { q.remove(i) }))
                })?;
                if m == "pop_front" {
                    return ok(self.opt(dt, r));
                }
                return match r {
                    Some(v) => ok(v),
                    None => Err(Stop::Panic("remove out of bounds".into())),
                };
            }
            "insert" => {
                let p = self.base_ptr(&args[0])?;
                let (i, x) = (args[1].usz()?, args[2].clone());
                self.with(&p, |s, v| {
                    s.force_seq(v)?;
                    let V::Seq(q) = v else { return unsup("insert") };
                    if i > q.len() {
                        return Err(Stop::Panic("insert out of bounds".into()));
                    }
                    Rc::make_mut(q).insert(i, x);
                    Ok(())
                })?;
                return ok(self.unit());
            }
            "clear" | "truncate" | "resize" | "reverse" | "swap" | "fill" | "rotate_left" | "rotate_right" => {
                let p = self.base_ptr(&args[0])?;
                let mut items = (*self.get_seq(&p)?).clone();
                match m {
                    "clear" => items.clear(),
                    "truncate" => items.truncate(args[1].usz()?),
                    "resize" => {
                        let x = args[2].clone();
                        items.resize(args[1].usz()?, x)
                    }
                    "reverse" => items.reverse(),
                    "swap" => {
                        let (i, j) = (args[1].usz()?, args[2].usz()?);
                        if i >= items.len() || j >= items.len() {
                            return Err(Stop::Panic("swap out of bounds".into()));
                        }
                        items.swap(i, j)
                    }
                    "fill" => {
                        let x = args[1].clone();
                        items.iter_mut().for_each(|v| *v = x.clone())
                    }
                    "rotate_left" => items.rotate_left(args[1].usz()?),
                    _ => items.rotate_right(args[1].usz()?),
                }
                self.set(&p, seq(items))?;
                return ok(self.unit());
            }
            "drain" => {
                let p = self.base_ptr(&args[0])?;
                let mut items = (*self.get_seq(&p)?).clone();
                let n = items.len();
                let Some((a, b)) = self.range_bounds(&args[1].clone(), n)? else { return unsup("drain") };
                if a > b || b > n {
                    return Err(Stop::Panic("drain out of bounds".into()));
                }
                let out: Vec<_> = items.drain(a..b).collect();
                self.set(&p, seq(items))?;
                let k = out.len();
                return ok(self.mk(It::Items(Rc::new(out), 0, k)));
            }
            "split_off" => {
                let p = self.base_ptr(&args[0])?;
                let mut items = (*self.get_seq(&p)?).clone();
                let at = args[1].usz()?;
                if at > items.len() {
                    return Err(Stop::Panic("split_off out of bounds".into()));
                }
                let r = items.split_off(at);
                self.set(&p, seq(items))?;
                return ok(seq(r));
            }
            "reserve" | "shrink_to_fit" => return ok(self.unit()),
            "capacity" => {
                let p = self.base_ptr(&args[0])?;
                return ok(V::Int(self.len_of(&p)? as u128));
            }
            "chunks" | "chunks_exact" | "windows" | "par_chunks" | "chunks_mut" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                let k = args[1].usz()?;
                if k == 0 {
                    return Err(Stop::Panic("chunk size zero".into()));
                }
                let mut out = vec![];
                let mut i = 0;
                while i < n {
                    let e = (i + k).min(n);
                    if (m == "chunks_exact" || m == "windows") && e - i < k {
                        break;
                    }
                    out.push(V::Ref(self.sub_ptr(&p, i, e)?));
                    i += if m == "windows" { 1 } else { k };
                }
                let c = out.len();
                if m == "chunks_exact" {
                    // the remainder, past the end of what the iterator yields
                    out.push(V::Ref(self.sub_ptr(&p, i.min(n), n)?));
                }
                return ok(self.mk(It::Items(Rc::new(out), 0, c)));
            }
            "get" | "get_mut" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                if let V::Int(i) = &args[1] {
                    let i = *i as usize;
                    let r = if i < n { Some(V::Ref(self.index_ptr(&p, i))) } else { None };
                    return ok(self.opt(dt, r));
                }
                if let Some((a, b)) = self.range_bounds(&args[1].clone(), n)? {
                    let r = if a <= b && b <= n { Some(V::Ref(self.sub_ptr(&p, a, b)?)) } else { None };
                    return ok(self.opt(dt, r));
                }
                return unsup("get");
            }
            "first" | "last" | "first_mut" | "last_mut" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                let r = if n == 0 {
                    None
                } else {
                    Some(V::Ref(self.index_ptr(&p, if m.starts_with("first") { 0 } else { n - 1 })))
                };
                return ok(self.opt(dt, r));
            }
            "split_first" | "split_last" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                if n == 0 {
                    return ok(self.none(dt));
                }
                let (i, a, b) = if m == "split_first" { (0, 1, n) } else { (n - 1, 0, n - 1) };
                let x = V::Ref(self.index_ptr(&p, i));
                let y = V::Ref(self.sub_ptr(&p, a, b)?);
                let t = self.tup(vec![x, y]);
                return ok(self.some(dt, t));
            }
            "split_at" | "split_at_mut" => {
                let p = self.base_ptr(&args[0])?;
                let n = self.len_of(&p)?;
                let k = args[1].usz()?;
                let a = V::Ref(self.sub_ptr(&p, 0, k)?);
                let b = V::Ref(self.sub_ptr(&p, k, n.max(k))?);
                return ok(self.tup(vec![a, b]));
            }
            "concat" => {
                let s = self.seq_items(&args[0])?;
                let mut out = vec![];
                for x in s.iter() {
                    let i = self.seq_items(x)?;
                    for e in i.iter() {
                        out.push(self.deep_clone(e));
                    }
                }
                return ok(seq(out));
            }
            "copy_from_slice" | "clone_from_slice" => {
                let p = self.base_ptr(&args[0])?;
                let s = self.seq_items(&args[1])?;
                if s.len() != self.len_of(&p)? {
                    return Err(Stop::Panic("copy_from_slice: lengths differ".into()));
                }
                self.set(&p, V::Seq(s))?;
                return ok(self.unit());
            }
            "contains" => {
                let s = self.seq_items(&args[0])?;
                let mut r = V::Int(0);
                for x in s.iter() {
                    let e = self.eq_vals(x, &args[1].clone())?;
                    r = match (&r, &e) {
                        (_, V::Int(1)) => return ok(V::Int(1)),
                        (_, V::Int(_)) => r,
                        (V::Int(_), _) => e,
                        (V::Sym(a, t), V::Sym(b, _)) => V::Sym(app("|", sort2(*a, *b)), *t),
                        _ => return unsup("contains"),
                    };
                }
                return ok(r);
            }
            "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "sort_unstable_by" | "dedup" => {
                let p = self.base_ptr(&args[0])?;
                let s = self.get_seq(&p)?;
                let keys: Option<Vec<BigUint>> = s
                    .iter()
                    .map(|x| match x {
                        V::Int(i) => Some(BigUint::from(*i)),
                        V::F(q) => q.as_const(),
                        _ => None,
                    })
                    .collect();
                if let (Some(k), true) = (keys, m == "sort" || m == "sort_unstable") {
                    let mut z: Vec<_> = k.into_iter().zip(s.iter().cloned()).collect();
                    z.sort_by(|a, b| a.0.cmp(&b.0));
                    self.set(&p, seq(z.into_iter().map(|x| x.1).collect()))?;
                    return ok(self.unit());
                }
                // by a comparison that is decided for every pair it is asked about
                if (m == "sort_by" || m == "sort_unstable_by") && s.len() <= 64 {
                    let f = args[1].clone();
                    let mut out: Vec<V<'tcx>> = vec![];
                    let mut decided = true;
                    'e: for x in s.iter() {
                        let mut i = out.len();
                        while i > 0 {
                            let (a, b) = (ptr_to(out[i - 1].clone()), ptr_to(x.clone()));
                            let r = self.call_value(&f, vec![a, b])?;
                            if matches!(r, V::Sym(..)) {
                                decided = false;
                                break 'e;
                            }
                            // Less, Equal, Greater
                            if self.variant(&r)?.0 < 2 {
                                break;
                            }
                            i -= 1;
                        }
                        out.insert(i, x.clone());
                    }
                    if decided {
                        self.set(&p, seq(out))?;
                        return ok(self.unit());
                    }
                }
                // uninterpreted permutation
                let k = self.vkey(&V::Seq(s.clone()));
                let n = s.len();
                let mut out = vec![];
                for i in 0..n {
                    let t = app(&format!("{}@{}", m, i), vec![k]);
                    out.push(match &s[i] {
                        V::F(q) => V::F(Poly::atom(q.fid, t)),
                        V::Sym(_, ty) => self.sym(t, *ty),
                        _ => return unsup("sort of structured elements"),
                    });
                }
                self.set(&p, seq(out))?;
                return ok(self.unit());
            }
            "map" => {
                let s = self.seq_items(&args[0])?;
                let mut out = vec![];
                for x in s.iter() {
                    out.push(self.call_value(&args[1].clone(), vec![x.clone()])?);
                }
                return ok(seq(out));
            }
            "retain" => {
                let p = self.base_ptr(&args[0])?;
                let s = self.get_seq(&p)?;
                let mut out = vec![];
                for x in s.iter() {
                    let r = self.call_value(&args[1].clone(), vec![ptr_to(x.clone())])?;
                    if self.truth(&r)? {
                        out.push(x.clone());
                    }
                }
                self.set(&p, seq(out))?;
                return ok(self.unit());
            }
            _ => {}
        }
        Ok(None)
    }

    fn map_model(&mut self, key: &str, _ga: GenericArgsRef<'tcx>, args: &mut Vec<V<'tcx>>, dt: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        let (tr, m) = key.split_once("::").unwrap();
        let ok = |v: V<'tcx>| Ok(Some(v));
        if tr == "Entry" {
            let V::Adt(a) = &args[0] else { return unsup("entry") };
            let V::Ref(p) = &a.f[0] else { return unsup("entry") };
            let p = p.clone();
            let kv = a.f[1].clone();
            let kt = self.vkey(&kv);
            let cur = self.get(&p)?;
            let V::Map(mut mm) = cur else { return unsup("entry of non map") };
            let present = mm.m.contains_key(&kt);
            let mut path = (*p.path).clone();
            path.push(P::Entry(kt));
            let slot = Ptr { cell: p.cell.clone(), path: Rc::new(path) };
            match m {
                "or_insert" | "or_insert_with" | "or_default" => {
                    if !present {
                        let v = match m {
                            "or_insert" => args[1].clone(),
                            "or_insert_with" => self.call_value(&args[1].clone(), vec![])?,
                            _ => match dt.kind() {
                                ty::Ref(_, t, _) => self.default_of(*t)?,
                                _ => return unsup("or_default"),
                            },
                        };
                        let mref = Rc::make_mut(&mut mm);
                        self.map_insert(mref, kv, v);
                        self.set(&p, V::Map(mm))?;
                    }
                    return ok(V::Ref(slot));
                }
                "and_modify" => {
                    if present {
                        self.call_value(&args[1].clone(), vec![V::Ref(slot)])?;
                    }
                    return ok(args[0].clone());
                }
                _ => return unsup(key),
            }
        }
        let p = self.base_ptr(&args[0])?;
        let cur = self.with(&p, |s, v| {
            if let V::Sym(..) = v {
                let x = s.materialize(v)?;
                *v = x;
            }
            Ok(v.clone())
        })?;
        let V::Map(mut mm) = cur else { return unsup(format!("{} on {}", key, cur.show_d(2))) };
        let slot = |kt: TermId| {
            let mut path = (*p.path).clone();
            path.push(P::Entry(kt));
            Ptr { cell: p.cell.clone(), path: Rc::new(path) }
        };
        match m {
            "insert" => {
                let set = matches!(tr, "HashSet" | "BTreeSet");
                let v = if set { self.unit() } else { args[2].clone() };
                let old = {
                    let mref = Rc::make_mut(&mut mm);
                    mref.set = set;
                    self.map_insert(mref, args[1].clone(), v)
                };
                self.set(&p, V::Map(mm))?;
                return ok(if set { self.boolv(old.is_none()) } else { self.opt(dt, old) });
            }
            "contains_key" | "contains" => {
                let kv = self.deref_all(&args[1])?;
                let k = self.vkey(&kv);
                return ok(self.boolv(mm.m.contains_key(&k)));
            }
            "get" | "get_mut" => {
                let kv = self.deref_all(&args[1])?;
                let k = self.vkey(&kv);
                let r = if mm.m.contains_key(&k) { Some(V::Ref(slot(k))) } else { None };
                return ok(self.opt(dt, r));
            }
            "remove" => {
                let kv = self.deref_all(&args[1])?;
                let k = self.vkey(&kv);
                let r = Rc::make_mut(&mut mm).m.remove(&k);
                self.set(&p, V::Map(mm))?;
                return ok(if tr.ends_with("Set") { self.boolv(r.is_some()) } else { self.opt(dt, r.map(|x| x.2)) });
            }
            "entry" => return ok(adt(dt, 0, vec![V::Ref(p.clone()), args[1].clone()])),
            "len" => return ok(V::Int(mm.m.len() as u128)),
            "is_empty" => return ok(self.boolv(mm.m.is_empty())),
            "clear" => {
                Rc::make_mut(&mut mm).m.clear();
                self.set(&p, V::Map(mm))?;
                return ok(self.unit());
            }
            "iter" | "iter_mut" => {
                return ok(self.to_iter(V::Ref(p))?);
            }
            "keys" | "into_keys" => {
                let items: Vec<_> = mm.ordered().into_iter().map(|x| ptr_to(x.1)).collect();
                let n = items.len();
                return ok(self.mk(It::Items(Rc::new(items), 0, n)));
            }
            "values" | "values_mut" => {
                let items: Vec<_> = mm.ordered().into_iter().map(|x| V::Ref(slot(x.0))).collect();
                let n = items.len();
                return ok(self.mk(It::Items(Rc::new(items), 0, n)));
            }
            "retain" => {
                for (kt, k, _) in mm.ordered() {
                    let r = self.call_value(&args[1].clone(), vec![ptr_to(k), V::Ref(slot(kt))])?;
                    if !self.truth(&r)? {
                        Rc::make_mut(&mut mm).m.remove(&kt);
                    }
                }
                self.set(&p, V::Map(mm))?;
                return ok(self.unit());
            }
            "extend" => return unsup(key),
            _ => {}
        }
        Ok(None)
    }

    fn int_model(&mut self, key: &str, args: &[V<'tcx>], dt: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        let (tr, m) = key.split_once("::").unwrap();
        let bits: u32 = match tr {
            "u8" => 8,
            "u16" => 16,
            "u32" | "i32" => 32,
            "u128" | "i128" => 128,
            _ => 64,
        };
        let mk = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let mut a = vec![];
        for x in args {
            match self.deref_all(x)? {
                V::Int(i) => a.push(i),
                v if self.is_z(&v) => {
                    let l = args.iter().map(|x| self.deref_all(x)).collect::<R<Vec<_>>>()?;
                    let t = match tr {
                        "u8" => self.tcx.types.u8,
                        "u16" => self.tcx.types.u16,
                        "u32" => self.tcx.types.u32,
                        "u64" => self.tcx.types.u64,
                        "u128" => self.tcx.types.u128,
                        "usize" => self.tcx.types.usize,
                        _ => return unsup(format!("{} of a symbolic integer", key)),
                    };
                    return self.z_call(t, m, &l);
                }
                V::Sym(..) => return Ok(Some(self.uninterpreted(key, args, dt)?)),
                _ => return Ok(None),
            }
        }
        let r = match m {
            "pow" => {
                let mut r: u128 = 1;
                for _ in 0..a[1] {
                    r = r.wrapping_mul(a[0]);
                }
                if r & mk != r {
                    return Err(Stop::Panic("pow overflow".into()));
                }
                r
            }
            "leading_zeros" => (a[0].leading_zeros() - (128 - bits)) as u128,
            "trailing_zeros" => if a[0] == 0 { bits as u128 } else { a[0].trailing_zeros() as u128 },
            "count_ones" => a[0].count_ones() as u128,
            "is_power_of_two" => a[0].is_power_of_two() as u128,
            "next_power_of_two" => a[0].next_power_of_two(),
            "wrapping_add" => a[0].wrapping_add(a[1]) & mk,
            "wrapping_sub" => a[0].wrapping_sub(a[1]) & mk,
            "wrapping_mul" => a[0].wrapping_mul(a[1]) & mk,
            "wrapping_shr" => (a[0] >> (a[1] as u32 % bits)) & mk,
            "wrapping_neg" => a[0].wrapping_neg() & mk,
            "min" => a[0].min(a[1]),
            "max" => a[0].max(a[1]),
            "saturating_sub" => a[0].saturating_sub(a[1]),
            "saturating_add" => (a[0] + a[1]).min(mk),
            "abs_diff" => a[0].abs_diff(a[1]),
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" => {
                let (v, o) = match m {
                    "overflowing_add" => {
                        let (v, c) = a[0].overflowing_add(a[1]);
                        (v & mk, c || (v & mk) != v)
                    }
                    "overflowing_sub" => (a[0].wrapping_sub(a[1]) & mk, a[0] < a[1]),
                    _ => {
                        let (v, c) = a[0].overflowing_mul(a[1]);
                        (v & mk, c || (v & mk) != v)
                    }
                };
                return Ok(Some(self.tup(vec![V::Int(v), self.boolv(o)])));
            }
            "overflowing_shr" => {
                let k = a[1] as u32;
                return Ok(Some(self.tup(vec![V::Int(a[0] >> (k % bits)), self.boolv(k >= bits)])));
            }
            "checked_add" | "checked_sub" | "checked_mul" | "checked_div" => {
                let r = match m {
                    "checked_add" => a[0].checked_add(a[1]).filter(|x| x & mk == *x),
                    "checked_sub" => a[0].checked_sub(a[1]),
                    "checked_mul" => a[0].checked_mul(a[1]).filter(|x| x & mk == *x),
                    _ => a[0].checked_div(a[1]),
                };
                return Ok(Some(self.opt(dt, r.map(V::Int))));
            }
            "from_le_bytes" | "to_le_bytes" => return Ok(None),
            _ => return Ok(None),
        };
        Ok(Some(V::Int(r)))
    }
}


pub fn modinv(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    use num_bigint::BigInt;
    use num_integer::Integer;
    let (a, m2) = (BigInt::from(a.clone()), BigInt::from(m.clone()));
    let e = a.extended_gcd(&m2);
    if !e.gcd.is_one() {
        return None;
    }
    let r = e.x.mod_floor(&m2);
    r.to_biguint()
}
