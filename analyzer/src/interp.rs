//! Interprocedural abstract interpreter over rustc MIR (type-checked, borrow-checked, monomorphic
//! instances). Values are value numbers (see poly.rs); unknown branches are partitioned by decision,
//! branches one side of which only diverges are taken on the other side.
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, BasicBlock, Body, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Hook<'tcx> = Rc<dyn Fn(&mut Interp<'tcx>, Instance<'tcx>, &[V<'tcx>], Ty<'tcx>) -> R<Option<V<'tcx>>> + 'tcx>;

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: String,
    pub args: Vec<TermId>,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub te: TypingEnv<'tcx>,
    pub field_tys: HashMap<DefId, Option<FieldId>>,
    pub field_trait: Option<DefId>,
    pub user_crates: Vec<String>,
    pub hooks: HashMap<String, Hook<'tcx>>,
    pub const_atoms: BTreeSet<String>,
    /// associated constants taken as parameters of the analysed instance: (name, type) -> value
    pub const_set: HashMap<(String, String), u128>,
    pub lens: Vec<(String, usize)>,
    /// seeded draws are instantiated by distinct arbitrary constants instead of symbols
    pub draw_const: bool,
    pub overrides: HashMap<String, V<'tcx>>,
    pub opaque: BTreeSet<String>,
    pub decisions: Vec<usize>,
    pub trace: Vec<(TermId, usize, usize)>,
    pub assumed: HashMap<TermId, usize>,
    /// path condition: (term, chosen alternative, true if the alternative was forced because the
    /// other one diverges)
    pub conds: Vec<(TermId, usize, bool)>,
    pub events: Vec<Event>,
    pub steps: u64,
    pub max_steps: u64,
    pub depth: usize,
    pub covered: BTreeSet<String>,
    pub calls: u64,
    pub fresh: u32,
    pub eq_generic: bool,
    /// differences of field elements which were taken to be nonzero
    pub generic: std::collections::BTreeSet<TermId>,
    /// values of the plain constants of the crates analysed before this one
    /// what an unknown function returns
    pub any_fn: Option<Rc<dyn Fn(&mut Interp<'tcx>, &[V<'tcx>]) -> R<V<'tcx>>>>,
    pub foreign_consts: HashMap<String, u128>,
    pub diverge_cache: HashMap<(InstanceKind<'tcx>, BasicBlock), bool>,
    pub const_cache: HashMap<(DefId, GenericArgsRef<'tcx>, Option<u32>), V<'tcx>>,
    pub stack: Vec<String>,
    pub trace_calls: bool,
    pub atom_fields: HashMap<TermId, FieldId>,
    pub no_field_model: bool,
    pub skip_model: BTreeSet<String>,
    pub big_on: bool,
    pub opaque_sqrt: bool,
    pub statics: HashMap<DefId, Cell<'tcx>>,
    /// machine integers as integer polynomials, and field elements as their limbs
    pub z: crate::zdom::Z,
}

pub struct Frame<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: &'tcx Body<'tcx>,
    pub locals: Vec<Cell<'tcx>>,
}

fn mask(bits: u32) -> u128 {
    if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }
}
fn sext(v: u128, bits: u32) -> i128 {
    if bits >= 128 {
        return v as i128;
    }
    let s = 128 - bits;
    ((v << s) as i128) >> s
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx,
            te: TypingEnv::fully_monomorphized(),
            field_tys: HashMap::new(),
            field_trait: None,
            user_crates: vec!["plonky".into(), "plookup".into()],
            hooks: HashMap::new(),
            const_atoms: BTreeSet::new(),
            const_set: HashMap::new(),
            lens: vec![],
            draw_const: false,
            overrides: HashMap::new(),
            opaque: BTreeSet::new(),
            decisions: vec![],
            trace: vec![],
            assumed: HashMap::new(),
            conds: vec![],
            events: vec![],
            steps: 0,
            max_steps: 80_000_000,
            depth: 0,
            covered: BTreeSet::new(),
            calls: 0,
            fresh: 0,
            eq_generic: true,
            generic: Default::default(),
            foreign_consts: HashMap::new(),
            any_fn: None,
            diverge_cache: HashMap::new(),
            const_cache: HashMap::new(),
            stack: vec![],
            trace_calls: false,
            atom_fields: HashMap::new(),
            no_field_model: false,
            skip_model: BTreeSet::new(),
            big_on: false,
            opaque_sqrt: true,
            statics: HashMap::new(),
            z: Default::default(),
        }
    }

    // ---------------------------------------------------------------- names and types

    pub fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let nm = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
        if let Some(t) = tcx.trait_item_of(d).and_then(|i| tcx.trait_of_assoc(i)).or_else(|| tcx.trait_of_assoc(d)) {
            return format!("{}::{}", tcx.item_name(t), nm);
        }
        if let Some(i) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            return format!("{}::{}", self.head(st), nm);
        }
        let parent = tcx.opt_parent(d).and_then(|p| tcx.opt_item_name(p)).map(|s| s.to_string()).unwrap_or_default();
        format!("{}::{}", parent, nm)
    }
    pub fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.tcx.item_name(a.did()).to_string(),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Str => "str".into(),
            ty::Ref(_, t, _) => self.head(*t),
            ty::Tuple(_) => "tuple".into(),
            ty::Closure(..) => "closure".into(),
            ty::RawPtr(..) => "ptr".into(),
            _ => t.to_string(),
        }
    }
    pub fn is_user(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate).to_string();
        self.user_crates.contains(&c)
    }
    pub fn field_ty(&mut self, t: Ty<'tcx>) -> Option<FieldId> {
        let ty::Adt(a, _) = t.kind() else { return None };
        if self.z.on || !self.is_user(a.did()) {
            return None;
        }
        if let Some(r) = self.field_tys.get(&a.did()) {
            return *r;
        }
        self.field_tys.insert(a.did(), None);
        let Some(ft) = self.field_trait else { return None };
        let implements = self.tcx.all_impls(ft).any(|i| {
            let st = self.tcx.type_of(i).instantiate_identity().skip_norm_wip();
            matches!(st.kind(), ty::Adt(b, _) if b.did() == a.did())
        });
        if !implements {
            return None;
        }
        let order = self.assoc_const_of(t, "ORDER");
        let r = match order {
            Ok(V::Seq(s)) => {
                let limbs: Vec<u64> = s.iter().filter_map(|v| v.int().ok()).map(|x| x as u64).collect();
                Some(register_field(&self.tcx.item_name(a.did()).to_string(), limbs_to_big(&limbs)))
            }
            _ => None,
        };
        self.field_tys.insert(a.did(), r);
        r
    }
    /// Value of the associated constant `nm` of type t (inherent first, then any trait impl).
    pub fn assoc_const_of(&mut self, t: Ty<'tcx>, nm: &str) -> R<V<'tcx>> {
        let ty::Adt(a, args) = t.kind() else { return unsup("assoc const of non-adt") };
        for &i in self.tcx.inherent_impls(a.did()) {
            for &it in self.tcx.associated_item_def_ids(i) {
                if self.tcx.def_kind(it) == (DefKind::AssocConst) && self.tcx.item_name(it).as_str() == nm {
                    return self.eval_const_def(it, args, None);
                }
            }
        }
        for tr in self.tcx.all_traits_including_private().collect::<Vec<_>>() {
            if !self.is_user(tr) {
                continue;
            }
            let item = self.tcx.associated_item_def_ids(tr).iter().cloned().find(|&it| {
                self.tcx.def_kind(it) == DefKind::AssocConst && self.tcx.item_name(it).as_str() == nm
            });
            if let Some(it) = item {
                let has = self.tcx.all_impls(tr).any(|i| {
                    let st = self.tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    matches!(st.kind(), ty::Adt(b, _) if b.did() == a.did())
                });
                if has {
                    let targs = self.tcx.mk_args(&[t.into()]);
                    return self.eval_const_def(it, targs, None);
                }
            }
        }
        unsup(format!("no associated const {} for {}", nm, t))
    }
    pub fn mono<T>(&self, inst: Instance<'tcx>, v: T) -> T
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>>,
    {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.te, EarlyBinder::bind(self.tcx, v))
    }
    pub fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.te, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    pub fn field_type(&self, f: &ty::FieldDef, args: GenericArgsRef<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.te, f.ty(self.tcx, args))
    }
    pub fn int_bits(&self, t: Ty<'tcx>) -> (u32, bool) {
        match t.kind() {
            ty::Bool => (1, false),
            ty::Char => (32, false),
            ty::Int(i) => (i.bit_width().unwrap_or(64) as u32, true),
            ty::Uint(u) => (u.bit_width().unwrap_or(64) as u32, false),
            _ => (128, false),
        }
    }

    // ---------------------------------------------------------------- symbols

    pub fn sym(&mut self, t: TermId, ty: Ty<'tcx>) -> V<'tcx> {
        if let Term::Name(n) = term(t) {
            if let Some(v) = self.overrides.get(&n) {
                return v.clone();
            }
        }
        if let Some(f) = self.field_ty(ty) {
            self.atom_fields.insert(t, f);
            return V::F(Poly::atom(f, t));
        }
        match ty.kind() {
            ty::Tuple(l) if l.is_empty() => adt(ty, 0, vec![]),
            _ => V::Sym(t, ty),
        }
    }
    pub fn named(&mut self, n: &str, ty: Ty<'tcx>) -> V<'tcx> {
        self.sym(name(n), ty)
    }
    pub fn sub_term(&self, t: TermId, what: &str) -> TermId {
        match term(t) {
            Term::Name(n) => name(&format!("{}{}", n, what)),
            _ => app(what, vec![t]),
        }
    }
    pub fn seq_len(&self, t: TermId) -> usize {
        let s = show(t);
        for (suf, n) in &self.lens {
            if s.ends_with(suf.as_str()) {
                return *n;
            }
        }
        2
    }
    pub fn decide(&mut self, cond: TermId, n: usize) -> usize {
        if n == 2 {
            if let Term::App(op, a) = term(cond) {
                if op == "not" {
                    return 1 - self.decide(a[0], 2);
                }
            }
        }
        if let Some(&d) = self.assumed.get(&cond) {
            return d;
        }
        let d = if self.trace.len() < self.decisions.len() { self.decisions[self.trace.len()] } else { 0 };
        self.trace.push((cond, d, n));
        self.assumed.insert(cond, d);
        self.conds.push((cond, d, false));
        d
    }
    pub fn assume(&mut self, cond: TermId, alt: usize) {
        if let Term::App(op, a) = term(cond) {
            if op == "not" {
                return self.assume(a[0], 1 - alt);
            }
        }
        if self.assumed.insert(cond, alt) != Some(alt) {
            self.conds.push((cond, alt, true));
        }
    }
    pub fn materialize(&mut self, v: &V<'tcx>) -> R<V<'tcx>> {
        let V::Sym(t, ty) = v else { return Ok(v.clone()) };
        let (t, ty) = (*t, *ty);
        match ty.kind() {
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let iv = self.sym(t, *inner);
                Ok(ptr_to(iv))
            }
            ty::Tuple(l) => {
                let f = l.iter().enumerate().map(|(i, ft)| self.sym(self.sub_term(t, &format!(".{}", i)), ft)).collect();
                Ok(adt(ty, 0, f))
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0) as usize;
                Ok(seq((0..n).map(|i| self.sym(self.sub_term(t, &format!("[{}]", i)), *et)).collect()))
            }
            ty::Slice(et) => {
                let n = self.seq_len(t);
                Ok(seq((0..n).map(|i| self.sym(self.sub_term(t, &format!("[{}]", i)), *et)).collect()))
            }
            ty::Adt(def, args) => {
                let nm = self.tcx.item_name(def.did()).to_string();
                if !self.is_user(def.did()) {
                    match nm.as_str() {
                        "Vec" => {
                            let et = args.type_at(0);
                            let n = self.seq_len(t);
                            return Ok(seq(
                                (0..n).map(|i| self.sym(self.sub_term(t, &format!("[{}]", i)), et)).collect(),
                            ));
                        }
                        "Box" => {
                            let et = args.type_at(0);
                            return Ok(V::Box(cell(self.sym(t, et))));
                        }
                        "Rc" | "Arc" => {
                            let et = args.type_at(0);
                            return Ok(V::Shared(cell(self.sym(t, et))));
                        }
                        "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" => {
                            return Ok(V::Map(Rc::new(MapV::default())));
                        }
                        _ => {}
                    }
                }
                if def.is_enum() {
                    let c = self.sub_term(t, ".variant");
                    let n = def.variants().len();
                    let d = self.decide(c, n) as u32;
                    let var = def.variant(VariantIdx::from_u32(d));
                    let f = var
                        .fields
                        .iter()
                        .map(|fd| {
                            let ft = self.field_type(fd, args);
                            self.sym(self.sub_term(t, &format!(".{}.{}", var.name, fd.name)), ft)
                        })
                        .collect();
                    Ok(adt(ty, d, f))
                } else if def.is_struct() {
                    let var = def.non_enum_variant();
                    let f = var
                        .fields
                        .iter()
                        .map(|fd| {
                            let ft = self.field_type(fd, args);
                            self.sym(self.sub_term(t, &format!(".{}", fd.name)), ft)
                        })
                        .collect();
                    Ok(adt(ty, 0, f))
                } else {
                    unsup(format!("cannot materialize {}", ty))
                }
            }
            _ => unsup(format!("cannot look inside {} : {}", show(t), ty)),
        }
    }

    // ---------------------------------------------------------------- memory

    fn walk<'a>(&mut self, v: &'a mut V<'tcx>, path: &[P]) -> R<&'a mut V<'tcx>> {
        if path.is_empty() {
            return Ok(v);
        }
        if let V::Sym(..) = v {
            let m = self.materialize(v)?;
            *v = m;
        }
        match (&path[0], v) {
            (P::Field(0), v @ V::Box(_)) => self.walk(v, &path[1..]),
            (P::Field(0), v @ V::Ref(_)) => self.walk(v, &path[1..]),
            (P::Field(i), V::Adt(a)) => {
                let a = Rc::make_mut(a);
                if *i >= a.f.len() {
                    return unsup("field index out of range");
                }
                self.walk(&mut a.f[*i], &path[1..])
            }
            (P::Variant(k), V::Adt(a)) => {
                if a.variant != *k {
                    return unsup("downcast to a different variant");
                }
                // stay on the same value
                let a: *mut Rc<AdtV<'tcx>> = a;
                // SAFETY: reborrow of the same place, needed because the enum value itself is the place
                let vv = unsafe { &mut *a };
                self.walk_adt(vv, &path[1..])
            }
            (P::Index(i), V::Seq(s)) => {
                if *i >= s.len() {
                    return Err(Stop::Panic(format!("index {} out of bounds (len {})", i, s.len())));
                }
                let s = Rc::make_mut(s);
                self.walk(&mut s[*i], &path[1..])
            }
            (P::Entry(k), V::Map(m)) => {
                let m = Rc::make_mut(m);
                match m.m.get_mut(k) {
                    Some(e) => self.walk(&mut e.2, &path[1..]),
                    None => unsup("missing map entry"),
                }
            }
            (P::Field(0), v @ V::F(_)) => {
                let V::F(p) = &*v else { unreachable!() };
                let limbs = field_to_limbs(p);
                match limbs {
                    Some(l) => {
                        *v = seq(l.into_iter().map(|x| V::Int(x as u128)).collect());
                        self.walk(v, &path[1..])
                    }
                    None => unsup("limbs of a symbolic field element"),
                }
            }
            (p, v) => unsup(format!("bad projection {:?} on {}", p, v.show_d(2))),
        }
    }
    fn walk_adt<'a>(&mut self, a: &'a mut Rc<AdtV<'tcx>>, path: &[P]) -> R<&'a mut V<'tcx>> {
        match path.first() {
            Some(P::Field(i)) => {
                let a = Rc::make_mut(a);
                if *i >= a.f.len() {
                    return unsup("field index out of range");
                }
                self.walk(&mut a.f[*i], &path[1..])
            }
            _ => unsup("downcast without field"),
        }
    }
    pub fn with<T>(&mut self, p: &Ptr<'tcx>, f: impl FnOnce(&mut Self, &mut V<'tcx>) -> R<T>) -> R<T> {
        let c = p.cell.clone();
        let mut b = match c.try_borrow_mut() {
            Ok(b) => b,
            Err(_) => return unsup("place already borrowed"),
        };
        let v = self.walk(&mut b, &p.path)?;
        f(self, v)
    }
    pub fn get(&mut self, p: &Ptr<'tcx>) -> R<V<'tcx>> {
        if let Some(P::Sub(a, b)) = p.path.last() {
            let (a, b) = (*a, *b);
            let pre = Ptr { cell: p.cell.clone(), path: Rc::new(p.path[..p.path.len() - 1].to_vec()) };
            let s = self.get_seq(&pre)?;
            if a > b || b > s.len() {
                return Err(Stop::Panic(format!("range {}..{} out of bounds (len {})", a, b, s.len())));
            }
            return Ok(seq(s[a..b].to_vec()));
        }
        self.with(p, |_, v| Ok(v.clone()))
    }
    pub fn set(&mut self, p: &Ptr<'tcx>, val: V<'tcx>) -> R<()> {
        if p.path.is_empty() {
            *p.cell.borrow_mut() = val;
            return Ok(());
        }
        if let Some(P::Sub(a, b)) = p.path.last() {
            let (a, b) = (*a, *b);
            let pre = Ptr { cell: p.cell.clone(), path: Rc::new(p.path[..p.path.len() - 1].to_vec()) };
            let items = val.items()?;
            return self.with(&pre, |s, v| {
                s.force_seq(v)?;
                let V::Seq(q) = v else { return unsup("set on non sequence") };
                Rc::make_mut(q)[a..b].clone_from_slice(&items);
                Ok(())
            });
        }
        // partial initialisation of an enum through Downcast is not produced by MIR building
        self.with(p, |_, v| {
            *v = val;
            Ok(())
        })
    }
    pub fn force_seq(&mut self, v: &mut V<'tcx>) -> R<()> {
        for _ in 0..4 {
            match v {
                V::Seq(_) => return Ok(()),
                V::Sym(..) => {
                    let m = self.materialize(v)?;
                    *v = m;
                }
                V::Ref(p) => {
                    let p = p.clone();
                    *v = self.get(&p)?;
                }
                V::Box(c) | V::Shared(c) => {
                    let c = c.clone();
                    let x = c.borrow().clone();
                    *v = x;
                }
                _ => return unsup(format!("expected a sequence, got {}", v.show_d(2))),
            }
        }
        unsup("expected a sequence")
    }
    pub fn get_seq(&mut self, p: &Ptr<'tcx>) -> R<Rc<Vec<V<'tcx>>>> {
        if let Some(P::Sub(..)) = p.path.last() {
            return self.get(p)?.items();
        }
        // materialise in place so that element identities persist
        let r = self.with(p, |s, v| {
            if let V::Sym(..) = v {
                let m = s.materialize(v)?;
                *v = m;
            }
            match v {
                V::Seq(q) => Ok(Ok(q.clone())),
                V::Ref(q) => Ok(Err(q.clone())),
                V::Box(c) | V::Shared(c) => Ok(Err(Ptr { cell: c.clone(), path: Rc::new(vec![]) })),
                o => unsup(format!("expected a sequence, got {}", o.show_d(2))),
            }
        })?;
        match r {
            Ok(q) => Ok(q),
            Err(q) => self.get_seq(&q),
        }
    }
    /// follow references/boxes until a pointer to a non-pointer value
    pub fn deref_all(&mut self, v: &V<'tcx>) -> R<V<'tcx>> {
        let mut v = v.clone();
        loop {
            match &v {
                V::Ref(p) => {
                    let p = p.clone();
                    v = self.get(&p)?
                }
                V::Box(c) | V::Shared(c) => {
                    let x = c.borrow().clone();
                    v = x
                }
                V::Sym(_, t) if t.is_ref() || t.is_box() => v = self.materialize(&v)?,
                _ => return Ok(v),
            }
        }
    }
    /// pointer to the innermost non-pointer place
    pub fn base_ptr(&mut self, v: &V<'tcx>) -> R<Ptr<'tcx>> {
        let mut v = v.clone();
        if let V::Sym(_, t) = &v {
            if t.is_ref() || t.is_box() {
                v = self.materialize(&v)?;
            }
        }
        let mut p = match v {
            V::Ref(p) => p,
            V::Box(c) | V::Shared(c) => Ptr { cell: c, path: Rc::new(vec![]) },
            o => Ptr { cell: cell(o), path: Rc::new(vec![]) },
        };
        loop {
            if let Some(P::Sub(..)) = p.path.last() {
                return Ok(p);
            }
            let inner = self.with(&p, |s, v| {
                if let V::Sym(_, t) = v {
                    if t.is_ref() || t.is_box() {
                        let m = s.materialize(v)?;
                        *v = m;
                    }
                }
                Ok(match v {
                    V::Ref(q) => Some(q.clone()),
                    V::Box(c) | V::Shared(c) => Some(Ptr { cell: c.clone(), path: Rc::new(vec![]) }),
                    _ => None,
                })
            })?;
            match inner {
                Some(q) => p = q,
                None => return Ok(p),
            }
        }
    }
    pub fn seq_items(&mut self, v: &V<'tcx>) -> R<Rc<Vec<V<'tcx>>>> {
        match v {
            V::Seq(s) => Ok(s.clone()),
            _ => {
                let p = self.base_ptr(v)?;
                self.get_seq(&p)
            }
        }
    }
    pub fn index_ptr(&mut self, p: &Ptr<'tcx>, i: usize) -> Ptr<'tcx> {
        let mut path = (*p.path).clone();
        if let Some(P::Sub(a, _)) = path.last().cloned() {
            path.pop();
            path.push(P::Index(a + i));
        } else {
            path.push(P::Index(i));
        }
        Ptr { cell: p.cell.clone(), path: Rc::new(path) }
    }
    pub fn sub_ptr(&mut self, p: &Ptr<'tcx>, a: usize, b: usize) -> R<Ptr<'tcx>> {
        let n = self.len_of(p)?;
        if a > b || b > n {
            return Err(Stop::Panic(format!("range {}..{} out of bounds (len {})", a, b, n)));
        }
        let mut path = (*p.path).clone();
        if let Some(P::Sub(x, _)) = path.last().cloned() {
            path.pop();
            path.push(P::Sub(x + a, x + b));
        } else {
            path.push(P::Sub(a, b));
        }
        Ok(Ptr { cell: p.cell.clone(), path: Rc::new(path) })
    }
    pub fn field_ptr(&self, p: &Ptr<'tcx>, i: usize) -> Ptr<'tcx> {
        let mut path = (*p.path).clone();
        path.push(P::Field(i));
        Ptr { cell: p.cell.clone(), path: Rc::new(path) }
    }
    pub fn len_of(&mut self, p: &Ptr<'tcx>) -> R<usize> {
        if let Some(P::Sub(a, b)) = p.path.last() {
            return Ok(b - a);
        }
        Ok(self.get_seq(p)?.len())
    }

    // ---------------------------------------------------------------- canonical key of a value

    pub fn vkey(&mut self, v: &V<'tcx>) -> TermId {
        match v {
            V::Uninit => name("uninit"),
            V::Int(i) => intern(Term::Int(*i)),
            V::F(p) => p.as_atom().unwrap_or_else(|| intern(Term::P(p.clone()))),
            V::Sym(t, ty) => {
                if let ty::Adt(d, _) = ty.kind() {
                    // structs are compared by their fields
                    if self.is_user(d.did()) && d.is_struct() {
                        if let Ok(m @ V::Adt(_)) = self.materialize(v) {
                            return self.vkey(&m);
                        }
                    }
                }
                *t
            }
            V::Adt(a) => {
                let mut k = vec![];
                for f in &a.f {
                    k.push(self.vkey(f));
                }
                let h = match a.ty.kind() {
                    ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
                    _ => self.head(a.ty),
                };
                app(&format!("{}#{}", h, a.variant), k)
            }
            V::Seq(s) => {
                let k = s.iter().map(|x| self.vkey(x)).collect();
                app("seq", k)
            }
            V::Ref(p) => match self.get(&p.clone()) {
                Ok(v) => self.vkey(&v),
                Err(_) => name("&?"),
            },
            V::Box(c) | V::Shared(c) => {
                let x = c.borrow().clone();
                self.vkey(&x)
            }
            V::Fn(d, _) => name(&self.tcx.def_path_str(*d)),
            V::It(_) => {
                self.fresh += 1;
                name(&format!("iter#{}", self.fresh))
            }
            V::Map(m) => {
                let mut k = vec![];
                for (kk, e) in m.m.iter() {
                    k.push(*kk);
                    k.push(self.vkey(&e.2));
                }
                app("map", k)
            }
            V::Str(s) => intern(Term::Str(s.to_string())),
        }
    }

    // ---------------------------------------------------------------- constants

    pub fn eval_const_def(&mut self, def: DefId, args: GenericArgsRef<'tcx>, promoted: Option<mir::Promoted>) -> R<V<'tcx>> {
        let tcx = self.tcx;
        if promoted.is_none() {
            let k = self.key(def);
            if !self.const_set.is_empty() && args.len() > 0 && tcx.trait_of_assoc(def).is_some() {
                if let Some(v) = self.const_set.get(&(k.clone(), self.head(args.type_at(0)))) {
                    return Ok(V::Int(*v));
                }
            }
            if self.const_atoms.contains(&k) {
                let t = tcx.type_of(def).instantiate(tcx, args).skip_norm_wip();
                let t = self.norm(t);
                let self_ty = if args.len() > 0 { self.head(args.type_at(0)) } else { String::new() };
                let nm = name(&format!("{}<{}>", k, self_ty));
                return Ok(self.sym(nm, t));
            }
        }
        let ck = (def, args, promoted.map(|p| p.as_u32()));
        if let Some(v) = self.const_cache.get(&ck) {
            return Ok(v.clone());
        }
        let (inst, body): (Instance<'tcx>, &'tcx Body<'tcx>) = match promoted {
            Some(p) => {
                let bodies = tcx.promoted_mir(def);
                (Instance { def: InstanceKind::Item(def), args }, &bodies[p])
            }
            None => {
                let i = match Instance::try_resolve(tcx, self.te, def, args) {
                    Ok(Some(i)) => i,
                    _ => return unsup(format!("cannot resolve const {}", tcx.def_path_str(def))),
                };
                if !i.def_id().is_local() {
                    if let Some(x) = self.foreign_consts.get(&tcx.def_path(i.def_id()).to_string_no_crate_verbose()) {
                        return Ok(V::Int(*x));
                    }
                }
                (i, tcx.mir_for_ctfe(i.def_id()))
            }
        };
        let v = self.run_body(inst, body, vec![])?;
        if self.const_set.is_empty() {
            self.const_cache.insert(ck, v.clone());
        }
        Ok(v)
    }
    fn eval_operand_const(&mut self, inst: Instance<'tcx>, c: &mir::ConstOperand<'tcx>) -> R<V<'tcx>> {
        let c = self.mono(inst, c.const_);
        match c {
            mir::Const::Unevaluated(u, _) => self.eval_const_def(u.def, u.args, u.promoted),
            mir::Const::Ty(t, ct) => match ct.kind() {
                ty::ConstKind::Value(v) => {
                    if let Some(s) = v.try_to_leaf() {
                        Ok(V::Int(s.to_bits(s.size())))
                    } else if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                        match std::str::from_utf8(b) {
                            Ok(s) if t.peel_refs().is_str() => Ok(V::Str(s.into())),
                            _ => unsup("type-level constant"),
                        }
                    } else {
                        unsup("type-level constant")
                    }
                }
                _ => {
                    if let Some(n) = ct.try_to_target_usize(self.tcx) {
                        return Ok(V::Int(n as u128));
                    }
                    unsup(format!("type-level constant of {}", t))
                }
            },
            mir::Const::Val(v, t) => self.const_value(v, t),
        }
    }
    fn const_value(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> R<V<'tcx>> {
        match t.kind() {
            ty::FnDef(d, a) => return Ok(V::Fn(*d, a.no_bound_vars().unwrap())),
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return Ok(V::Str(String::from_utf8_lossy(b).to_string().into()));
                }
            }
            _ => {}
        }
        match v {
            mir::ConstValue::ZeroSized => match t.kind() {
                ty::Array(..) => Ok(seq(vec![])),
                _ => {
                    // unit-like struct: give it its (zero sized) fields
                    let fs = match t.kind() {
                        ty::Adt(d, args) if d.is_struct() => {
                            let fields: Vec<_> =
                                d.non_enum_variant().fields.iter().map(|f| self.field_type(f, args)).collect();
                            let mut r = vec![];
                            for ft in fields {
                                r.push(self.const_value(mir::ConstValue::ZeroSized, ft)?);
                            }
                            r
                        }
                        ty::Tuple(l) => {
                            let mut r = vec![];
                            for ft in l.iter() {
                                r.push(self.const_value(mir::ConstValue::ZeroSized, ft)?);
                            }
                            r
                        }
                        _ => vec![],
                    };
                    Ok(adt(t, 0, fs))
                }
            },
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => Ok(V::Int(i.to_bits(i.size()))),
                ty::Float(_) => Ok(V::Sym(name(&format!("float{:?}", i)), t)),
                ty::Adt(d, _) if d.is_enum() => {
                    let bits = i.to_bits(i.size());
                    for (vi, disc) in d.discriminants(self.tcx) {
                        if disc.val == bits {
                            return Ok(adt(t, vi.as_u32(), vec![]));
                        }
                    }
                    unsup("enum constant")
                }
                ty::Adt(d, args) if d.is_struct() => {
                    let fts: Vec<_> = d.non_enum_variant().fields.iter().map(|f| self.field_type(f, args)).collect();
                    let mut r = vec![];
                    for ft in fts {
                        let zst = self
                            .tcx
                            .layout_of(self.te.as_query_input(ft))
                            .map(|l| l.is_zst())
                            .unwrap_or(false);
                        r.push(self.const_value(if zst { mir::ConstValue::ZeroSized } else { v }, ft)?);
                    }
                    Ok(adt(t, 0, r))
                }
                _ => unsup(format!("scalar constant of type {}", t)),
            },
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let id = p.provenance.alloc_id();
                match self.tcx.global_alloc(id) {
                    mir::interpret::GlobalAlloc::Static(d) => self.static_ref(d),
                    _ => Ok(V::Sym(name(&format!("constptr {}", t)), t)),
                }
            }
            _ => Ok(V::Sym(name(&format!("const {}", t)), t)),
        }
    }

    pub fn static_ref(&mut self, d: DefId) -> R<V<'tcx>> {
        if let Some(c) = self.statics.get(&d) {
            return Ok(V::Ref(Ptr { cell: c.clone(), path: Rc::new(vec![]) }));
        }
        let body = self.tcx.mir_for_ctfe(d);
        let inst = Instance { def: InstanceKind::Item(d), args: ty::List::empty() };
        let v = self.run_body(inst, body, vec![])?;
        let c = cell(v);
        self.statics.insert(d, c.clone());
        Ok(V::Ref(Ptr { cell: c, path: Rc::new(vec![]) }))
    }

    // ---------------------------------------------------------------- bodies

    pub fn call_instance(&mut self, inst: Instance<'tcx>, args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        match inst.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return unsup(format!("no MIR for {}", self.tcx.def_path_str(d)));
                }
            }
            InstanceKind::Shim(_) => {}
            _ => return unsup(format!("no body for {:?}", inst)),
        }
        let body = self.tcx.instance_mir(inst.def);
        if self.z.on {
            let r = self.run_body(inst, body, args.clone())?;
            self.z_views(&args)?;
            return Ok(r);
        }
        self.run_body(inst, body, args)
    }

    pub fn run_body(&mut self, inst: Instance<'tcx>, body: &'tcx Body<'tcx>, args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        if self.depth > 2000 {
            return unsup("call depth");
        }
        self.calls += 1;
        if self.is_user(inst.def_id()) {
            self.covered.insert(self.tcx.def_path_str(inst.def_id()));
        }
        let nm = self.tcx.def_path_str(inst.def_id());
        if self.trace_calls {
            eprintln!("{}> {}({})", " ".repeat(self.depth.min(60)), nm, args.iter().map(|a| a.show_d(2)).collect::<Vec<_>>().join("; "));
        }
        self.stack.push(nm);
        self.depth += 1;
        let r = self.run_body_inner(inst, body, args);
        self.depth -= 1;
        if self.trace_calls {
            match &r {
                Ok(v) => eprintln!("{}< {}", " ".repeat(self.depth.min(60)), v.show_d(2)),
                Err(e) => eprintln!("{}< {:?}", " ".repeat(self.depth.min(60)), e),
            }
        }
        let r = r.map_err(|e| match e {
            Stop::Unsupported(s) if !s.contains(" @ ") => Stop::Unsupported(format!("{} @ {}", s, self.stack.join(" > "))),
            Stop::Panic(s) if !s.contains(" @ ") => Stop::Panic(format!("{} @ {}", s, self.stack.last().cloned().unwrap_or_default())),
            e => e,
        });
        self.stack.pop();
        r
    }

    fn run_body_inner(&mut self, inst: Instance<'tcx>, body: &'tcx Body<'tcx>, args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        let mut fr = Frame { inst, body, locals: Vec::with_capacity(body.local_decls.len()) };
        for _ in 0..body.local_decls.len() {
            fr.locals.push(cell(V::Uninit));
        }
        let mut args = args;
        if let Some(sp) = body.spread_arg {
            // the last declared argument collects the remaining values in a tuple
            let k = sp.as_usize();
            if args.len() >= k {
                let rest: Vec<V<'tcx>> = args.split_off(k - 1);
                let t = self.mono(inst, body.local_decls[sp].ty);
                let tup = if rest.len() == 1 && matches!(&rest[0], V::Adt(a) if matches!(a.ty.kind(), ty::Tuple(_))) {
                    rest[0].clone()
                } else {
                    adt(t, 0, rest)
                };
                args.push(tup);
            }
        }
        if args.len() != body.arg_count {
            return unsup(format!("arity mismatch: {} vs {}", args.len(), body.arg_count));
        }
        for (i, a) in args.into_iter().enumerate() {
            *fr.locals[i + 1].borrow_mut() = a;
        }
        let mut bb = mir::START_BLOCK;
        loop {
            if self.z.cut.is_some() {
                self.z_cut(&fr, bb)?;
            }
            let data = &body.basic_blocks[bb];
            for st in &data.statements {
                self.steps += 1;
                if self.steps > self.max_steps {
                    return unsup("step budget exhausted");
                }
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (place, rv) = &**b;
                        let v = self.eval_rvalue(&fr, rv, place)?;
                        self.write_place(&fr, place, v)?;
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.eval_place(&fr, place)?;
                        let t = self.place_ty(&fr, place);
                        let k = variant_index.as_u32();
                        self.with(&p, |_, v| {
                            match v {
                                V::Adt(a) => Rc::make_mut(a).variant = k,
                                _ => *v = adt(t, k, vec![]),
                            }
                            Ok(())
                        })?;
                    }
                    StatementKind::StorageLive(l) => {
                        fr.locals[l.as_usize()] = cell(V::Uninit);
                    }
                    StatementKind::Intrinsic(_) => {}
                    _ => {}
                }
            }
            self.steps += 1;
            let term = data.terminator();
            match &term.kind {
                TerminatorKind::Goto { target, .. } => bb = *target,
                TerminatorKind::FalseEdge { real_target, .. } => bb = *real_target,
                TerminatorKind::FalseUnwind { real_target, .. } => bb = *real_target,
                TerminatorKind::Return => {
                    let v = fr.locals[0].borrow().clone();
                    if let V::Uninit = v {
                        let t = self.mono(inst, body.local_decls[mir::RETURN_PLACE].ty);
                        return Ok(adt(t, 0, vec![]));
                    }
                    return Ok(v);
                }
                TerminatorKind::Drop { target, .. } => bb = *target,
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = self.eval_operand(&fr, discr)?;
                    bb = match v {
                        V::Int(i) => targets.target_for_value(i),
                        V::Sym(..) if self.is_z(&v) => {
                            let mut bb = None;
                            for (x, b) in targets.iter() {
                                let t = self.tcx.types.u128;
                                let e = if discr.ty(&fr.body.local_decls, self.tcx).is_bool() {
                                    if x == 0 { self.z_not(&v)? } else { v.clone() }
                                } else {
                                    self.z_binop(mir::BinOp::Eq, &v, &V::Int(x), t, t)?
                                };
                                if self.z_decide(&e)? {
                                    bb = Some(b);
                                    break;
                                }
                            }
                            bb.unwrap_or(targets.otherwise())
                        }
                        V::Sym(t, ty) => self.branch(&fr, t, ty, targets)?,
                        o => return unsup(format!("switch on {}", o.show_d(2))),
                    };
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let v = self.eval_operand(&fr, cond)?;
                    match v {
                        V::Int(i) => {
                            if (i != 0) != *expected {
                                return Err(Stop::Panic(format!("{:?}", msg).chars().take(120).collect()));
                            }
                        }
                        V::Sym(..) if self.is_z(&v) => {
                            let m: String = format!("{:?}", msg).chars().take(60).collect();
                            let w = format!("{} in {}", m, self.tcx.def_path_str(inst.def_id()));
                            self.z_assert(&v, *expected, &w)?
                        }
                        V::Sym(t, _) => self.assume(t, *expected as usize),
                        _ => {}
                    }
                    bb = *target;
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.eval_operand(&fr, func)?;
                    let mut av = Vec::with_capacity(args.len());
                    for a in args.iter() {
                        av.push(self.eval_operand(&fr, &a.node)?);
                    }
                    let dt = self.place_ty(&fr, destination);
                    let v = match f {
                        V::Fn(d, ga) => self.call_def(d, ga, av, dt, target.is_none())?,
                        other => self.call_value(&other, av)?,
                    };
                    match target {
                        Some(t) => {
                            self.write_place(&fr, destination, v)?;
                            bb = *t;
                        }
                        None => return Err(Stop::Panic("diverging call".into())),
                    }
                }
                TerminatorKind::Unreachable => return Err(Stop::Panic("unreachable".into())),
                k => return unsup(format!("terminator {:?}", k)),
            }
        }
    }

    fn branch(&mut self, fr: &Frame<'tcx>, t: TermId, ty: Ty<'tcx>, targets: &mir::SwitchTargets) -> R<BasicBlock> {
        let mut alts: Vec<(Option<u128>, BasicBlock)> = targets.iter().map(|(v, b)| (Some(v), b)).collect();
        let other_unreachable =
            matches!(fr.body.basic_blocks[targets.otherwise()].terminator().kind, TerminatorKind::Unreachable);
        if !other_unreachable {
            alts.push((None, targets.otherwise()));
        }
        if ty.is_bool() {
            // alternative index = truth value
            let f = targets.target_for_value(0);
            let tr = targets.target_for_value(1);
            if let Some(&d) = self.assumed.get(&strip_not(t).0) {
                let val = if strip_not(t).1 { 1 - d } else { d };
                return Ok(if val == 1 { tr } else { f });
            }
            let (fd, td) = (self.diverges(fr, f), self.diverges(fr, tr));
            if fd && !td {
                self.assume(t, 1);
                return Ok(tr);
            }
            if td && !fd {
                self.assume(t, 0);
                return Ok(f);
            }
            let d = self.decide(t, 2);
            return Ok(if d == 1 { tr } else { f });
        }
        if let Some(&d) = self.assumed.get(&t) {
            if d < alts.len() {
                return Ok(alts[d].1);
            }
        }
        let live: Vec<usize> = (0..alts.len()).filter(|&i| !self.diverges(fr, alts[i].1)).collect();
        if live.len() == 1 {
            self.assume(t, live[0]);
            return Ok(alts[live[0]].1);
        }
        let d = self.decide(t, alts.len());
        Ok(alts[d].1)
    }

    /// every path from bb ends in a panic / unreachable
    fn diverges(&mut self, fr: &Frame<'tcx>, bb: BasicBlock) -> bool {
        let k = (fr.inst.def, bb);
        if let Some(&r) = self.diverge_cache.get(&k) {
            return r;
        }
        let mut seen = BTreeSet::new();
        let mut work = vec![bb];
        let mut ret = false;
        while let Some(b) = work.pop() {
            if !seen.insert(b.as_u32()) {
                continue;
            }
            let term = fr.body.basic_blocks[b].terminator();
            match &term.kind {
                TerminatorKind::Return => {
                    ret = true;
                    break;
                }
                TerminatorKind::Call { target, .. } => work.extend(target.iter().cloned()),
                TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => work.push(*target),
                TerminatorKind::Goto { target, .. } => work.push(*target),
                TerminatorKind::SwitchInt { targets, .. } => work.extend(targets.all_targets().iter().cloned()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    work.push(*real_target)
                }
                _ => {}
            }
        }
        self.diverge_cache.insert(k, !ret);
        !ret
    }

    pub fn place_ty(&self, fr: &Frame<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        let t = p.ty(&fr.body.local_decls, self.tcx).ty;
        self.mono(fr.inst, t)
    }

    fn eval_place(&mut self, fr: &Frame<'tcx>, p: &Place<'tcx>) -> R<Ptr<'tcx>> {
        let mut cellv = fr.locals[p.local.as_usize()].clone();
        let mut path: Vec<P> = vec![];
        for (base, e) in p.iter_projections() {
            match e {
                ProjectionElem::Deref => {
                    let cur = Ptr { cell: cellv.clone(), path: Rc::new(path.clone()) };
                    let mut v = self.get(&cur)?;
                    if let V::Sym(_, t) = &v {
                        if t.is_ref() || t.is_box() || t.is_raw_ptr() {
                            let m = self.materialize(&v)?;
                            self.set(&cur, m.clone())?;
                            v = m;
                        }
                    }
                    match v {
                        V::Ref(q) => {
                            cellv = q.cell.clone();
                            path = (*q.path).clone();
                        }
                        V::Box(c) | V::Shared(c) => {
                            cellv = c;
                            path = vec![];
                        }
                        V::Str(_) => {}
                        o => return unsup(format!("deref of {}", o.show_d(2))),
                    }
                }
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(&fr.body.local_decls, self.tcx).ty;
                    if let ty::Adt(d, _) = bt.kind() {
                        if d.is_union() || (d.is_struct() && d.did().krate == rustc_hir::def_id::CrateNum::from_u32(1) && matches!(self.tcx.item_name(d.did()).as_str(), "ManuallyDrop" | "MaybeDangling")) || d.is_manually_drop() {
                            continue;
                        }
                    }
                    path.push(P::Field(f.as_usize()))
                }
                ProjectionElem::Downcast(_, v) => path.push(P::Variant(v.as_u32())),
                ProjectionElem::Index(l) => {
                    let i = fr.locals[l.as_usize()].borrow().usz()?;
                    let q = self.index_ptr(&Ptr { cell: cellv.clone(), path: Rc::new(path) }, i);
                    path = (*q.path).clone();
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let q = Ptr { cell: cellv.clone(), path: Rc::new(path) };
                    let i = if from_end { self.len_of(&q)? - offset as usize } else { offset as usize };
                    let q = self.index_ptr(&q, i);
                    path = (*q.path).clone();
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let q = Ptr { cell: cellv.clone(), path: Rc::new(path) };
                    let n = self.len_of(&q)?;
                    let b = if from_end { n - to as usize } else { to as usize };
                    let q = self.sub_ptr(&q, from as usize, b)?;
                    path = (*q.path).clone();
                }
                _ => {}
            }
        }
        Ok(Ptr { cell: cellv, path: Rc::new(path) })
    }
    fn write_place(&mut self, fr: &Frame<'tcx>, p: &Place<'tcx>, v: V<'tcx>) -> R<()> {
        if p.projection.is_empty() {
            *fr.locals[p.local.as_usize()].borrow_mut() = v;
            return Ok(());
        }
        let q = self.eval_place(fr, p)?;
        // assigning a field of an uninitialised struct local
        if matches!(&*q.cell.borrow(), V::Uninit) && q.path.len() == 1 {
            if let P::Field(i) = q.path[0] {
                let t = self.mono(fr.inst, fr.body.local_decls[p.local].ty);
                let n = match t.kind() {
                    ty::Tuple(l) => l.len(),
                    ty::Adt(d, _) if d.is_struct() => d.non_enum_variant().fields.len(),
                    _ => 0,
                };
                if i < n {
                    let mut f = vec![V::Uninit; n];
                    f[i] = v;
                    *q.cell.borrow_mut() = adt(t, 0, f);
                    return Ok(());
                }
            }
        }
        self.set(&q, v)
    }
    pub fn eval_operand(&mut self, fr: &Frame<'tcx>, o: &Operand<'tcx>) -> R<V<'tcx>> {
        match o {
            Operand::Copy(p) => {
                if p.projection.is_empty() {
                    return Ok(fr.locals[p.local.as_usize()].borrow().clone());
                }
                let q = self.eval_place(fr, p)?;
                self.get(&q)
            }
            Operand::Move(p) => {
                if p.projection.is_empty() {
                    return Ok(std::mem::replace(&mut *fr.locals[p.local.as_usize()].borrow_mut(), V::Uninit));
                }
                let q = self.eval_place(fr, p)?;
                self.get(&q)
            }
            Operand::Constant(c) => self.eval_operand_const(fr.inst, c),
            Operand::RuntimeChecks(_) => Ok(V::Int(1)),
        }
    }

    fn eval_rvalue(&mut self, fr: &Frame<'tcx>, rv: &Rvalue<'tcx>, dest: &Place<'tcx>) -> R<V<'tcx>> {
        match rv {
            Rvalue::Use(o, _) => self.eval_operand(fr, o),
            Rvalue::Repeat(o, n) => {
                let v = self.eval_operand(fr, o)?;
                let n = self.mono(fr.inst, *n);
                let Some(n) = n.try_to_target_usize(self.tcx) else { return unsup("repeat length") };
                Ok(seq(vec![v; n as usize]))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                let q = self.eval_place(fr, p)?;
                if let Rvalue::Reborrow(..) = rv {
                    return self.get(&q);
                }
                if q.path.is_empty() {
                    if let V::Str(s) = &*q.cell.borrow() {
                        return Ok(V::Str(s.clone()));
                    }
                }
                Ok(V::Ref(q))
            }
            Rvalue::CopyForDeref(p) => {
                let q = self.eval_place(fr, p)?;
                // materialise in place so that the pointee is shared
                let v = self.get(&q)?;
                if let V::Sym(_, t) = &v {
                    if t.is_ref() || t.is_box() {
                        let m = self.materialize(&v)?;
                        self.set(&q, m.clone())?;
                        return Ok(m);
                    }
                }
                Ok(v)
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.eval_operand(fr, o)?;
                let t = self.mono(fr.inst, *t);
                let from = self.mono(fr.inst, o.ty(&fr.body.local_decls, self.tcx));
                match k {
                    mir::CastKind::IntToInt => match v {
                        V::Int(i) => {
                            let (fb, fs) = self.int_bits(from);
                            let (tb, _) = self.int_bits(t);
                            let x = if fs { sext(i, fb) as u128 } else { i };
                            Ok(V::Int(x & mask(tb)))
                        }
                        V::Sym(..) if self.is_z(&v) => self.z_cast(&v, from, t),
                        V::Sym(a, _) => Ok(V::Sym(app(&format!("as {}", t), vec![a]), t)),
                        V::Adt(a) => {
                            // fieldless enum to integer
                            if let ty::Adt(d, _) = a.ty.kind() {
                                let disc = d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(a.variant));
                                return Ok(V::Int(disc.val));
                            }
                            unsup("cast")
                        }
                        o => unsup(format!("int cast of {}", o.show_d(2))),
                    },
                    _ => {
                        if let ty::Float(_) = t.kind() {
                            let a = self.vkey(&v);
                            return Ok(V::Sym(app("asfloat", vec![a]), t));
                        }
                        if let ty::Float(_) = from.kind() {
                            let a = self.vkey(&v);
                            return Ok(V::Sym(app("fromfloat", vec![a]), t));
                        }
                        Ok(v)
                    }
                }
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.eval_operand(fr, &b.0)?;
                let y = self.eval_operand(fr, &b.1)?;
                let t = self.mono(fr.inst, b.0.ty(&fr.body.local_decls, self.tcx));
                let dt = self.place_ty(fr, dest);
                self.binop(*op, x, y, t, dt)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.eval_operand(fr, o)?;
                let t = self.mono(fr.inst, o.ty(&fr.body.local_decls, self.tcx));
                match op {
                    mir::UnOp::Not => match v {
                        V::Int(i) => Ok(V::Int(!i & mask(self.int_bits(t).0))),
                        V::Sym(..) if self.is_z(&v) => {
                            if !t.is_bool() {
                                return unsup("complement of a symbolic integer");
                            }
                            self.z_not(&v)
                        }
                        V::Sym(a, ty) => Ok(V::Sym(not_term(a), ty)),
                        o => unsup(format!("! on {}", o.show_d(2))),
                    },
                    mir::UnOp::Neg => match v {
                        V::Int(i) => Ok(V::Int(i.wrapping_neg() & mask(self.int_bits(t).0))),
                        V::Sym(a, ty) => Ok(V::Sym(app("-", vec![a]), ty)),
                        o => unsup(format!("- on {}", o.show_d(2))),
                    },
                    mir::UnOp::PtrMetadata => match &v {
                        V::Ref(p) => {
                            let p = p.clone();
                            Ok(V::Int(self.len_of(&p)? as u128))
                        }
                        V::Str(s) => Ok(V::Int(s.len() as u128)),
                        V::Sym(..) => {
                            let p = self.base_ptr(&v)?;
                            Ok(V::Int(self.len_of(&p)? as u128))
                        }
                        V::Box(c) => {
                            let p = Ptr { cell: c.clone(), path: Rc::new(vec![]) };
                            Ok(V::Int(self.len_of(&p)? as u128))
                        }
                        o => unsup(format!("metadata of {}", o.show_d(2))),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let q = self.eval_place(fr, p)?;
                self.discriminant(&q)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut f = Vec::with_capacity(ops.len());
                for o in ops.iter() {
                    f.push(self.eval_operand(fr, o)?);
                }
                let dt = self.place_ty(fr, dest);
                match &**k {
                    mir::AggregateKind::Array(_) => Ok(seq(f)),
                    mir::AggregateKind::Adt(_, v, _, _, _) => {
                        if let Some(fid) = self.field_ty(dt) {
                            if let Some(V::Seq(l)) = f.first() {
                                let limbs: Vec<u64> = l.iter().filter_map(|x| x.int().ok()).map(|x| x as u64).collect();
                                if limbs.len() == l.len() {
                                    return Ok(V::F(limbs_to_field(fid, &limbs)));
                                }
                            }
                        }
                        Ok(adt(dt, v.as_u32(), f))
                    }
                    mir::AggregateKind::RawPtr(..) => unsup("raw pointer aggregate"),
                    _ => Ok(adt(dt, 0, f)),
                }
            }
            r => unsup(format!("rvalue {:?}", r)),
        }
    }
    pub fn discriminant(&mut self, q: &Ptr<'tcx>) -> R<V<'tcx>> {
        let v = self.with(q, |s, v| {
            if let V::Sym(..) = v {
                let m = s.materialize(v)?;
                *v = m;
            }
            Ok(v.clone())
        })?;
        match v {
            V::Adt(a) => match a.ty.kind() {
                ty::Adt(d, _) if d.is_enum() => {
                    Ok(V::Int(d.discriminant_for_variant(self.tcx, VariantIdx::from_u32(a.variant)).val))
                }
                _ => Ok(V::Int(a.variant as u128)),
            },
            o => unsup(format!("discriminant of {}", o.show_d(2))),
        }
    }

    pub fn binop(&mut self, op: mir::BinOp, x: V<'tcx>, y: V<'tcx>, t: Ty<'tcx>, dt: Ty<'tcx>) -> R<V<'tcx>> {
        use mir::BinOp::*;
        if self.z.on && (self.is_z(&x) || self.is_z(&y)) {
            return self.z_binop(op, &x, &y, t, dt);
        }
        let (bits, signed) = self.int_bits(t);
        let m = mask(bits);
        if let (V::Int(a), V::Int(b)) = (&x, &y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sext(a, bits), sext(b, bits));
            let full = |o: mir::BinOp| -> Option<(u128, bool)> {
                // value and overflow
                if signed {
                    let r = match o {
                        Add => sa.checked_add(sb)?,
                        Sub => sa.checked_sub(sb)?,
                        _ => sa.checked_mul(sb)?,
                    };
                    let tr = (r as u128) & m;
                    Some((tr, sext(tr, bits) != r))
                } else {
                    match o {
                        Add => {
                            let (r, c) = a.overflowing_add(b);
                            Some((r & m, c || (r & m) != r))
                        }
                        Sub => Some((a.wrapping_sub(b) & m, a < b)),
                        _ => {
                            let (r, c) = a.overflowing_mul(b);
                            Some((r & m, c || (r & m) != r))
                        }
                    }
                }
            };
            let r = match op {
                Add | AddUnchecked => full(Add).ok_or(Stop::Unsupported("overflow".into()))?.0,
                Sub | SubUnchecked => full(Sub).ok_or(Stop::Unsupported("overflow".into()))?.0,
                Mul | MulUnchecked => full(Mul).ok_or(Stop::Unsupported("overflow".into()))?.0,
                AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                    let o = match op {
                        AddWithOverflow => Add,
                        SubWithOverflow => Sub,
                        _ => Mul,
                    };
                    let (v, c) = full(o).ok_or(Stop::Unsupported("overflow".into()))?;
                    return Ok(adt(dt, 0, vec![V::Int(v), V::Int(c as u128)]));
                }
                Div => {
                    if b == 0 {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                    if signed { (sa / sb) as u128 & m } else { a / b }
                }
                Rem => {
                    if b == 0 {
                        return Err(Stop::Panic("remainder by zero".into()));
                    }
                    if signed { (sa % sb) as u128 & m } else { a % b }
                }
                BitXor => a ^ b,
                BitAnd => a & b,
                BitOr => a | b,
                Shl | ShlUnchecked => {
                    let k = (b as u32) % bits;
                    (a << k) & m
                }
                Shr | ShrUnchecked => {
                    let k = (b as u32) % bits;
                    if signed { ((sa >> k) as u128) & m } else { a >> k }
                }
                Eq => (a == b) as u128,
                Ne => (a != b) as u128,
                Lt => (if signed { sa < sb } else { a < b }) as u128,
                Le => (if signed { sa <= sb } else { a <= b }) as u128,
                Gt => (if signed { sa > sb } else { a > b }) as u128,
                Ge => (if signed { sa >= sb } else { a >= b }) as u128,
                Cmp => {
                    let o = if signed { sa.cmp(&sb) } else { a.cmp(&b) };
                    return Ok(adt(dt, (o as i8 + 1) as u32, vec![]));
                }
                Offset => return unsup("pointer offset"),
            };
            return Ok(V::Int(r));
        }
        // booleans with one known side
        if t.is_bool() {
            match (&x, &y, op) {
                (V::Int(a), o, BitAnd) | (o, V::Int(a), BitAnd) => return Ok(if *a == 0 { V::Int(0) } else { o.clone() }),
                (V::Int(a), o, BitOr) | (o, V::Int(a), BitOr) => return Ok(if *a == 1 { V::Int(1) } else { o.clone() }),
                (V::Int(a), V::Sym(s, st), BitXor | Ne) | (V::Sym(s, st), V::Int(a), BitXor | Ne) => {
                    return Ok(V::Sym(if *a == 1 { not_term(*s) } else { *s }, *st))
                }
                (V::Int(a), V::Sym(s, st), Eq) | (V::Sym(s, st), V::Int(a), Eq) => {
                    return Ok(V::Sym(if *a == 0 { not_term(*s) } else { *s }, *st))
                }
                _ => {}
            }
        }
        let (kx, ky) = (self.vkey(&x), self.vkey(&y));
        if !matches!((&x, &y), (V::Sym(..) | V::Int(_), V::Sym(..) | V::Int(_))) {
            return unsup(format!("binop {:?} on {} and {}", op, x.show_d(2), y.show_d(2)));
        }
        let boolt = self.tcx.types.bool;
        let (o, a, neg) = match op {
            Eq => ("==", sort2(kx, ky), false),
            Ne => ("==", sort2(kx, ky), true),
            Lt => ("<", vec![kx, ky], false),
            Gt => ("<", vec![ky, kx], false),
            Ge => ("<", vec![kx, ky], true),
            Le => ("<", vec![ky, kx], true),
            Add | AddUnchecked | AddWithOverflow => ("+", sort2(kx, ky), false),
            Sub | SubUnchecked | SubWithOverflow => ("-", vec![kx, ky], false),
            Mul | MulUnchecked | MulWithOverflow => ("*", sort2(kx, ky), false),
            Div => ("/", vec![kx, ky], false),
            Rem => ("%", vec![kx, ky], false),
            BitXor => ("^", sort2(kx, ky), false),
            BitAnd => ("&", sort2(kx, ky), false),
            BitOr => ("|", sort2(kx, ky), false),
            Shl | ShlUnchecked => ("<<", vec![kx, ky], false),
            Shr | ShrUnchecked => (">>", vec![kx, ky], false),
            _ => return unsup("symbolic binop"),
        };
        if kx == ky && matches!(op, Eq | Ne | Lt | Gt | Le | Ge) {
            return Ok(V::Int(matches!(op, Eq | Le | Ge) as u128));
        }
        let r = app(o, a);
        let r = if neg { not_term(r) } else { r };
        match op {
            AddWithOverflow | SubWithOverflow | MulWithOverflow => Ok(adt(dt, 0, vec![V::Sym(r, t), V::Int(0)])),
            Eq | Ne | Lt | Gt | Le | Ge => Ok(V::Sym(r, boolt)),
            _ => Ok(V::Sym(r, dt)),
        }
    }

    // ---------------------------------------------------------------- calls

    /// call a closure / fn item / fn pointer value
    pub fn call_value(&mut self, f: &V<'tcx>, args: Vec<V<'tcx>>) -> R<V<'tcx>> {
        let mut f = f.clone();
        let mut ptr: Option<Ptr<'tcx>> = None;
        loop {
            match &f {
                V::Ref(p) => {
                    let p = p.clone();
                    f = self.get(&p)?;
                    ptr = Some(p);
                }
                V::Box(c) | V::Shared(c) => {
                    let p = Ptr { cell: c.clone(), path: Rc::new(vec![]) };
                    f = self.get(&p)?;
                    ptr = Some(p);
                }
                V::Sym(_, t) if t.is_ref() || t.is_box() => {
                    f = self.materialize(&f)?;
                }
                _ => break,
            }
        }
        match &f {
            V::Fn(d, ga) => {
                let t = self.tcx.fn_sig(*d).instantiate(self.tcx, ga).skip_norm_wip().output().skip_binder();
                let t = self.norm(t);
                self.call_def(*d, ga, args, t, false)
            }
            V::Adt(a) => match a.ty.kind() {
                ty::Closure(d, ga) => {
                    let inst = Instance { def: InstanceKind::Item(*d), args: ga };
                    let body = self.tcx.instance_mir(inst.def);
                    let st = body.local_decls[mir::Local::from_u32(1)].ty;
                    let selfv = if st.is_ref() {
                        V::Ref(ptr.unwrap_or_else(|| Ptr { cell: cell(f.clone()), path: Rc::new(vec![]) }))
                    } else {
                        f.clone()
                    };
                    let mut all = vec![selfv];
                    all.extend(args);
                    self.run_body(inst, body, all)
                }
                ty::FnDef(d, ga) => {
                    let (d, ga) = (*d, ga.no_bound_vars().unwrap());
                    let t = self.tcx.fn_sig(d).instantiate(self.tcx, ga).skip_norm_wip().output().skip_binder();
                    let t = self.norm(t);
                    self.call_def(d, ga, args, t, false)
                }
                _ => unsup(format!("call of {}", f.show_d(2))),
            },
            V::Sym(..) if self.any_fn.is_some() => {
                let h = self.any_fn.clone().unwrap();
                h(self, &args)
            }
            o => unsup(format!("call of {}", o.show_d(2))),
        }
    }

    pub fn concrete_type(&mut self, v: &V<'tcx>) -> R<Option<Ty<'tcx>>> {
        let v = self.deref_all(v)?;
        Ok(match v {
            V::Adt(a) => Some(a.ty),
            V::Sym(_, t) => Some(t),
            _ => None,
        })
    }

    pub fn call_def(&mut self, d: DefId, ga: GenericArgsRef<'tcx>, mut args: Vec<V<'tcx>>, dt: Ty<'tcx>, diverging: bool) -> R<V<'tcx>> {
        let tcx = self.tcx;
        if let DefKind::Ctor(_, CtorKind::Fn) = tcx.def_kind(d) {
            let vi = match dt.kind() {
                ty::Adt(a, _) if a.is_enum() => a.variant_index_with_ctor_id(d).as_u32(),
                _ => 0,
            };
            return Ok(adt(dt, vi, args));
        }
        let key = self.key(d);
        if diverging {
            let msg = args.iter().map(|a| a.show_d(3)).collect::<Vec<_>>().join(" ");
            return Err(Stop::Panic(format!("{} {}", key, msg.chars().take(160).collect::<String>())));
        }
        match key.as_str() {
            "FnOnce::call_once" | "FnMut::call_mut" | "Fn::call" => {
                let f = args.remove(0);
                let tup = args.pop();
                let a = match tup {
                    Some(V::Adt(t)) => t.f.clone(),
                    Some(V::Sym(..)) => {
                        let m = self.materialize(&tup.unwrap())?;
                        match m {
                            V::Adt(t) => t.f.clone(),
                            _ => vec![],
                        }
                    }
                    _ => vec![],
                };
                return self.call_value(&f, a);
            }
            _ => {}
        }
        let is_trait_method = tcx.trait_of_assoc(d).is_some();
        let mut ga = ga;
        if is_trait_method {
            let st = ga.type_at(0);
            if let ty::Dynamic(..) = st.kind() {
                if let Some(ct) = self.concrete_type(&args[0])? {
                    let mut l: Vec<ty::GenericArg<'tcx>> = ga.iter().collect();
                    l[0] = ct.into();
                    ga = tcx.mk_args(&l);
                }
            }
        }
        // field arithmetic
        if !args.is_empty() || is_trait_method {
            if let Some(v) = self.field_call(&key, d, ga, &args, dt)? {
                return Ok(v);
            }
        }
        let resolved = match Instance::try_resolve(tcx, self.te, d, ga) {
            Ok(Some(i)) => Some(i),
            _ => None,
        };
        if let Some(i) = resolved {
            let rkey = self.key(i.def_id());
            for k in [&rkey, &key] {
                if let Some(h) = self.hooks.get(k.as_str()).cloned() {
                    if let Some(v) = h(self, i, &args, dt)? {
                        return Ok(v);
                    }
                }
            }
            if self.is_user(i.def_id()) {
                if self.opaque.contains(&rkey) || self.opaque.contains(&key) {
                    return self.uninterpreted(&rkey, &args, dt);
                }
                if let InstanceKind::Item(_) = i.def {
                    return self.call_instance(i, args);
                }
            }
        }
        if self.trace_calls {
            eprintln!("{}  std {}({})", " ".repeat(self.depth.min(60)), key, args.iter().map(|a| a.show_d(2)).collect::<Vec<_>>().join("; "));
        }
        if let Some(v) = self.std_model(&key, d, ga, resolved, &mut args, dt)? {
            return Ok(v);
        }
        match resolved {
            Some(i) => match i.def {
                InstanceKind::Item(dd) if tcx.is_mir_available(dd) => self.call_instance(i, args),
                InstanceKind::Shim(_) => self.call_instance(i, args),
                _ => unsup(format!("no model for {} ({})", key, tcx.def_path_str(d))),
            },
            None => unsup(format!("unresolved {}", tcx.def_path_str(d))),
        }
    }

    pub fn uninterpreted(&mut self, key: &str, args: &[V<'tcx>], dt: Ty<'tcx>) -> R<V<'tcx>> {
        let mut k = vec![];
        for a in args {
            k.push(self.vkey(a));
        }
        Ok(self.sym(app(key, k), dt))
    }
    pub fn event(&mut self, kind: &str, args: &[V<'tcx>]) {
        let mut k = vec![];
        for a in args {
            k.push(self.vkey(a));
        }
        self.events.push(Event { kind: kind.into(), args: k });
    }

    pub fn reset(&mut self) {
        self.decisions.clear();
        self.reset_path();
    }
    pub fn reset_path(&mut self) {
        self.trace.clear();
        self.assumed.clear();
        self.conds.clear();
        self.events.clear();
        self.steps = 0;
        self.fresh = 0;
        self.stack.clear();
        self.depth = 0;
        self.statics.clear();
        self.z.reset();
    }
    /// reset per-path state and explore every decision sequence; f is called once per path
    pub fn explore<T>(&mut self, max_paths: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut out = vec![];
        let mut dec: Vec<usize> = vec![];
        loop {
            self.decisions = dec.clone();
            self.reset_path();
            out.push(f(self));
            if out.len() >= max_paths {
                return out;
            }
            // next decision vector
            let tr = self.trace.clone();
            let mut k = tr.len();
            loop {
                if k == 0 {
                    return out;
                }
                k -= 1;
                if tr[k].1 + 1 < tr[k].2 {
                    dec = tr[..k].iter().map(|x| x.1).collect();
                    dec.push(tr[k].1 + 1);
                    break;
                }
            }
        }
    }
}

pub fn strip_not(t: TermId) -> (TermId, bool) {
    if let Term::App(op, a) = term(t) {
        if op == "not" {
            let (x, n) = strip_not(a[0]);
            return (x, !n);
        }
    }
    (t, false)
}
pub fn not_term(t: TermId) -> TermId {
    if let Term::App(op, a) = term(t) {
        if op == "not" {
            return a[0];
        }
    }
    app("not", vec![t])
}
pub fn sort2(a: TermId, b: TermId) -> Vec<TermId> {
    if a <= b { vec![a, b] } else { vec![b, a] }
}

pub fn limbs_to_big(l: &[u64]) -> BigUint {
    let mut r = BigUint::from(0u32);
    for &x in l.iter().rev() {
        r = (r << 64) + BigUint::from(x);
    }
    r
}
pub fn big_to_limbs(b: &BigUint, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut x = b.clone();
    for _ in 0..n {
        v.push((&x & BigUint::from(u64::MAX)).to_u64().unwrap());
        x >>= 64;
    }
    v
}
/// number of 64-bit limbs of the Montgomery representation
pub fn n_limbs(fid: FieldId) -> usize {
    let p = field_p(fid);
    ((p.bits() + 63) / 64) as usize
}
pub fn limbs_to_field(fid: FieldId, l: &[u64]) -> Poly {
    let p = field_p(fid);
    let x = limbs_to_big(l);
    let r = (BigUint::from(1u32) << (64 * l.len())) % &p;
    let ri = r.modpow(&(&p - 2u32), &p);
    Poly::constant(fid, x * ri)
}
pub fn field_to_limbs(q: &Poly) -> Option<Vec<u64>> {
    let c = q.as_const()?;
    let p = field_p(q.fid);
    let n = n_limbs(q.fid);
    Some(big_to_limbs(&((c << (64 * n)) % p), n))
}
#[allow(dead_code)]
fn _unused(_: FieldIdx, _: BTreeMap<u32, u32>) {}
