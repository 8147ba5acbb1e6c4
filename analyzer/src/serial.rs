//! Reading back what was written: byte encodings of field elements and points, and the serde implementations.
use crate::base::*;
use crate::curve::*;
use crate::interp::*;
use crate::poly::*;
use crate::val::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use rustc_hir::def::Res;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// an element with a known low word, so that its parity is known however it is asked for
#[derive(Clone)]
struct Low {
    y: Poly,
    low: u64,
}
#[derive(Clone, Default)]
struct Shared {
    /// byte lists handed out, with the element they came from
    bytes: Vec<(TermId, Poly)>,
}
enum Tok<'t> {
    Bytes(V<'t>),
    Struct(Vec<(String, V<'t>, Ty<'t>)>),
    Unit,
}
type Rec<'t> = Rc<RefCell<Vec<Tok<'t>>>>;

impl<'tcx> Ctx<'tcx> {
    fn serial_scope<T>(&mut self, low: Option<Low>, sign: bool, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let hooks = self.it.hooks.clone();
        self.it.skip_model = ["to_canonical_u64_vec", "to_canonical_u32_vec", "to_canonical_u8_vec", "to_canonical_bool_vec", "from_canonical_u8_vec", "square_root"].iter().map(|s| s.to_string()).collect();
        let sh: Rc<RefCell<Shared>> = Default::default();
        for (m, w) in [("to_canonical_u64_vec", 64u32), ("to_canonical_u32_vec", 32), ("to_canonical_u8_vec", 8), ("to_canonical_bool_vec", 1)] {
            let (low, sh) = (low.clone(), sh.clone());
            self.it.hooks.insert(
                format!("Field::{}", m),
                Rc::new(move |it: &mut Interp<'tcx>, _, args, _| {
                    let p = it.deref_all(&args[0])?.poly()?;
                    let op = match w {
                        64 => "limb",
                        32 => "word",
                        8 => "byte",
                        _ => "bit",
                    };
                    let mut l = it.bits_of(&p, w, op);
                    if let Some(y) = &low {
                        let v = if p.sub(&y.y).is_zero() {
                            Some(y.low)
                        } else if p.add(&y.y).is_zero() {
                            let m = &field_p(p.fid) & BigUint::from(u64::MAX);
                            Some(m.to_u64().unwrap().wrapping_sub(y.low))
                        } else {
                            None
                        };
                        if let Some(v) = v {
                            for i in 0..(64 / w) as usize {
                                l[i] = V::Int((v >> (i as u32 * w) & (u64::MAX >> (64 - w))) as u128);
                            }
                        }
                    }
                    let r = seq(l);
                    let k = it.vkey(&r);
                    sh.borrow_mut().bytes.push((k, p));
                    Ok(Some(r))
                }),
            );
        }
        let sh2 = sh.clone();
        self.it.hooks.insert(
            "Field::from_canonical_u8_vec".into(),
            Rc::new(move |it: &mut Interp<'tcx>, inst, args, dt| {
                let st = inst.args.types().next().or_else(|| dt.walk().filter_map(|t| t.as_type()).nth(1));
                let Some(fid) = dt.walk().filter_map(|t| t.as_type()).chain(st).find_map(|t| it.field_ty(t)) else { return unsup("field of from_canonical_u8_vec") };
                let l = it.seq_items(&args[0])?;
                let err = |dt| Ok(Some(adt(dt, 1, vec![V::Sym(name("error"), dt)])));
                if l.len() != 8 * n_limbs(fid) {
                    return err(dt);
                }
                let k = it.vkey(&seq(l.to_vec()));
                if let Some((_, p)) = sh2.borrow().bytes.iter().find(|b| b.0 == k && b.1.fid == fid) {
                    return Ok(Some(adt(dt, 0, vec![V::F(p.clone())])));
                }
                if l.iter().all(|x| x.int().is_ok()) {
                    let mut r = BigUint::default();
                    for (i, x) in l.iter().enumerate() {
                        r += BigUint::from(x.int()?) << (8 * i);
                    }
                    if r >= field_p(fid) {
                        return err(dt);
                    }
                    return Ok(Some(adt(dt, 0, vec![V::F(Poly::constant(fid, r))])));
                }
                if it.decide(app("canonical", vec![k]), 2) == 0 {
                    return err(dt);
                }
                let a = app("parsed", vec![k]);
                it.atom_fields.insert(a, fid);
                Ok(Some(adt(dt, 0, vec![V::F(Poly::atom(fid, a))])))
            }),
        );
        self.it.hooks.insert(
            "Field::square_root".into(),
            Rc::new(move |it: &mut Interp<'tcx>, _, args, dt| {
                let p = it.deref_all(&args[0])?.poly()?;
                if let Some(y) = &low {
                    if y.y.fid == p.fid && y.y.mul(&y.y).sub(&p).is_zero() {
                        let r = if sign { y.y.neg() } else { y.y.clone() };
                        return Ok(Some(it.some(dt, V::F(r))));
                    }
                }
                let k = it.vkey(&V::F(p.clone()));
                if it.decide(app("square", vec![k]), 2) == 0 {
                    return Ok(Some(it.none(dt)));
                }
                let a = app("root", vec![k]);
                set_rule(a, 2, p.clone());
                it.atom_fields.insert(a, p.fid);
                Ok(Some(it.some(dt, V::F(Poly::atom(p.fid, a)))))
            }),
        );
        self.it.hooks.insert(
            "Write::write_all".into(),
            Rc::new(move |it: &mut Interp<'tcx>, _, args, dt| {
                let b = it.seq_items(&args[1])?;
                let p = it.base_ptr(&args[0])?;
                let V::Seq(s) = it.get(&p)? else { return unsup("writer") };
                let mut s = s.to_vec();
                s.extend(b.iter().cloned());
                it.set(&p, seq(s))?;
                let u = it.unit();
                Ok(Some(adt(dt, 0, vec![u])))
            }),
        );
        self.it.hooks.insert(
            "Read::read_exact".into(),
            Rc::new(move |it: &mut Interp<'tcx>, _, args, dt| {
                // the innermost reference to a slice is the reader
                let mut r = args[0].clone();
                let slot = loop {
                    let V::Ref(p) = &r else { return unsup("reader") };
                    let inner = it.get(p)?;
                    match &inner {
                        V::Ref(q) => {
                            if matches!(it.get(q)?, V::Seq(_)) {
                                break p.clone();
                            }
                            r = inner.clone();
                        }
                        _ => return unsup("reader"),
                    }
                };
                let have = it.get(&slot)?;
                let have = it.seq_items(&have)?;
                let buf = it.base_ptr(&args[1])?;
                let n = it.len_of(&buf)?;
                if have.len() < n {
                    it.set(&slot, sref(vec![]))?;
                    return Ok(Some(adt(dt, 1, vec![V::Sym(name("error"), dt)])));
                }
                for i in 0..n {
                    let q = it.index_ptr(&buf, i);
                    it.set(&q, have[i].clone())?;
                }
                it.set(&slot, sref(have[n..].to_vec()))?;
                let u = it.unit();
                Ok(Some(adt(dt, 0, vec![u])))
            }),
        );
        self.it.reset();
        let r = f(self);
        self.it.skip_model.clear();
        self.it.hooks = hooks;
        self.it.reset();
        r
    }
    fn vec_u8(&mut self, f: Ty<'tcx>) -> R<Ty<'tcx>> {
        let d = self.trait_item("Field", "to_canonical_u8_vec")?;
        let ga = self.tcx.mk_args(&[f.into()]);
        Ok(self.ret_ty(d, ga))
    }
    /// bytes written for a value
    fn written(&mut self, t: Ty<'tcx>, f: Ty<'tcx>, v: &V<'tcx>) -> R<Option<Vec<V<'tcx>>>> {
        let d = self.trait_item("ToBytes", "write")?;
        let w = Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, self.vec_u8(f)?);
        let ga = self.tcx.mk_args(&[t.into(), w.into()]);
        let buf = ptr_to(seq(vec![]));
        let r = self.call(d, ga, vec![ptr_to(v.clone()), buf.clone()])?;
        if self.it.variant(&r)?.0 != 0 {
            return Ok(None);
        }
        Ok(Some(self.it.seq_items(&buf)?.to_vec()))
    }
    /// the value read from bytes, and how many bytes are left
    fn read_back(&mut self, t: Ty<'tcx>, b: &[V<'tcx>]) -> R<(Option<V<'tcx>>, usize)> {
        let d = self.trait_item("FromBytes", "read")?;
        let e = self.tcx.lifetimes.re_erased;
        let sl = Ty::new_imm_ref(self.tcx, e, Ty::new_slice(self.tcx, self.tcx.types.u8));
        let rt = Ty::new_mut_ref(self.tcx, e, sl);
        let ga = self.tcx.mk_args(&[t.into(), rt.into()]);
        let rd = ptr_to(sref(b.to_vec()));
        let r = self.call(d, ga, vec![rd.clone()])?;
        let (v, f) = self.it.variant(&r)?;
        let left = self.it.seq_items(&rd)?.len();
        Ok((if v == 0 { Some(f[0].clone()) } else { None }, left))
    }
    fn named_bytes(&self, pre: &str, n: usize) -> Vec<V<'tcx>> {
        (0..n).map(|i| V::Sym(name(&format!("{}{}", pre, i)), self.tcx.types.u8)).collect()
    }
    /// conditions other than those of the encoding leave a path undecided
    fn plain_path<T>(&self, p: &Path<T>) -> R<()> {
        for (c, _, _) in &p.conds {
            match term(*c) {
                Term::App(o, _) if ["is0", "canonical", "square"].contains(&o.as_str()) => {}
                _ => return unsup(format!("condition {}", show(*c))),
            }
        }
        Ok(())
    }
    fn path_problem(&self, ps: Vec<Path<Option<String>>>) -> R<Option<String>> {
        let mut bad = None;
        for q in ps {
            let x = match &q.r {
                Err(Stop::Panic(m)) => Some(format!("panics: {}", m)),
                Err(e) => return Err(e.clone()),
                Ok(x) => x.clone(),
            };
            if x.is_some() {
                self.plain_path(&q)?;
                bad = x;
            }
        }
        Ok(bad)
    }
    pub fn check_serialization(&mut self) -> R<()> {
        let rt = "reading back what was written gives the same value and uses up exactly its bytes";
        let (wd, rd) = (self.trait_item("ToBytes", "write")?, self.trait_item("FromBytes", "read")?);
        for t in self.all_fields()? {
            let Some(fid) = self.it.field_ty(t) else { continue };
            let h = self.it.head(t);
            let site = format!("{}, {}", self.site(wd), self.site(rd));
            let k = format!("{} bytes", h);
            let site2 = site.clone();
            self.unit(&k.clone(), &site2, |s| {
                let bad = s.serial_scope(None, false, |s| {
                    let x = s.atoms_named(fid, "x", 1)[0].clone();
                    let ps = s.paths(20, |s| {
                        let Some(mut b) = s.written(t, t, &V::F(x.clone()))? else { return Ok(Some("writing fails".into())) };
                        let n = b.len();
                        b.extend(s.named_bytes("extra", 3));
                        Ok(match s.read_back(t, &b)? {
                            (Some(v), 3) if v.poly()?.sub(&x).is_zero() => None,
                            (Some(_), 3) => Some("another element is read".into()),
                            (Some(_), l) => Some(format!("{} of {} bytes are read", n + 3 - l.min(n + 3), n)),
                            (None, _) => Some("reading fails".into()),
                        })
                    })?;
                    s.path_problem(ps)
                })?;
                s.check(&k, &site, rt, bad.is_none(), || bad.clone().unwrap_or_default());
                let n = 8 * n_limbs(fid);
                let bad = s.serial_scope(None, false, |s| {
                    let mut bad = None;
                    for l in 0..=n {
                        let b = s.named_bytes("b", l);
                        let ps = s.paths(20, |s| {
                            let r = s.read_back(t, &b)?.0;
                            let k = s.it.vkey(&seq(b.clone()));
                            let canon = s.it.assumed.get(&app("canonical", vec![k])) == Some(&1);
                            Ok(match r {
                                Some(_) if l < n => Some(format!("an element is read from {} bytes", l)),
                                Some(_) if !canon => Some("an element is read from the bytes of an integer that is not below the order".into()),
                                None if l == n && canon => Some("reading canonical bytes fails".into()),
                                _ => None,
                            })
                        })?;
                        bad = s.path_problem(ps)?.or(bad);
                    }
                    Ok(bad)
                })?;
                s.check(&format!("{} bytes invalid", h), &site, "reading succeeds exactly on the bytes of an integer below the order", bad.is_none(), || bad.clone().unwrap_or_default());
                Ok(())
            });
        }
        for c in self.all_curves()? {
            let k = self.curve_cx(c)?;
            let bf = self.base(c)?;
            let h = self.it.head(c);
            let site = format!("{}, {}", self.site(wd), self.site(rd));
            let key = format!("{} point bytes", h);
            let s2 = site.clone();
            self.unit(&key.clone(), &s2, |s| {
                let mut bad = None;
                let p = s.pt(&k, "p");
                let v = s.aff_v(&k, &p)?;
                let mut len = 0;
                for low in [1u64, 2, 3, 0x8000_0000_0000_0000, u64::MAX, u64::MAX - 1, 0x1234_5678_9abc_def0, 0x1234_5678_9abc_deff] {
                    for sign in [false, true] {
                        let l = Low { y: p.y.clone(), low };
                        let r = s.serial_scope(Some(l), sign, |s| {
                            let ps = s.paths(60, |s| {
                                let Some(mut b) = s.written(k.aff, bf, &v)? else { return Ok(Some("writing fails".into())) };
                                let n = b.len();
                                len = n;
                                b.extend(s.named_bytes("extra", 3));
                                let (r, left) = s.read_back(k.aff, &b)?;
                                let Some(r) = r else { return Ok(Some("reading a point of the curve fails".into())) };
                                let none = HashMap::new();
                                let Some(q) = s.point_of(&r, &none)? else { return unsup("point read") };
                                Ok(if !s.pt_eq(&q, &p, &none) {
                                    Some(format!("the point read for {} is {}", s.pt_show(&p), s.pt_show(&q)))
                                } else if left != 3 {
                                    Some(format!("{} of {} bytes are read", n + 3 - left.min(n + 3), n))
                                } else {
                                    None
                                })
                            })?;
                            s.path_problem(ps)
                        })?;
                        bad = r.or(bad);
                    }
                }
                s.check(&key, &site, rt, bad.is_none(), || bad.clone().unwrap_or_default());
                // the point at infinity, whatever its coordinates
                let mut bad = None;
                for low in [0u64, 1] {
                    let inf = Pt { inf: true, x: p.x.clone(), y: p.y.clone() };
                    let zero = low == 0;
                    let v = if zero { s.aff_v(&k, &inf)? } else { s.inf_with(&k, &inf)? };
                    let l = Low { y: p.y.clone(), low: 5 };
                    let r = s.serial_scope(Some(l), false, |s| {
                        let ps = s.paths(60, |s| {
                            let Some(mut b) = s.written(k.aff, bf, &v)? else { return Ok(Some("writing fails".into())) };
                            let n = b.len();
                            b.extend(s.named_bytes("extra", 3));
                            let (r, left) = s.read_back(k.aff, &b)?;
                            let Some(r) = r else { return Ok(Some("reading the point at infinity fails".into())) };
                            let Some(q) = s.point_of(&r, &HashMap::new())? else { return unsup("point read") };
                            Ok(if !q.inf {
                                Some("the point at infinity is read as another point".into())
                            } else if left != 3 {
                                Some(format!("{} of {} bytes are read", n + 3 - left.min(n + 3), n))
                            } else {
                                None
                            })
                        })?;
                        s.path_problem(ps)
                    })?;
                    bad = r.or(bad);
                }
                s.check(&format!("{} infinity bytes", h), &site, rt, bad.is_none(), || bad.clone().unwrap_or_default());
                // arbitrary bytes
                let mut bad = None;
                for l in 0..=len {
                    let r = s.serial_scope(None, false, |s| {
                        let ps = s.paths(300, |s| {
                            let b = s.named_bytes("b", l);
                            let (r, _) = s.read_back(k.aff, &b)?;
                            let Some(r) = r else { return Ok(None) };
                            if l < len {
                                return Ok(Some(format!("a point is read from {} of {} bytes", l, len)));
                            }
                            let Some(q) = s.point_of(&r, &HashMap::new())? else { return unsup("point read") };
                            let e = q.y.mul(&q.y).sub(&q.x.pow(3)).sub(&k.a.mul(&q.x)).sub(&k.b);
                            Ok(if q.inf || e.is_zero() { None } else { Some(format!("the point read is not on the curve: {}", s.pt_show(&q))) })
                        })?;
                        // the tests of arbitrary bytes are conditions of the paths
                        let mut bad = None;
                        for q in ps {
                            match q.r {
                                Err(Stop::Panic(m)) => bad = Some(format!("panics on {} bytes: {}", l, m)),
                                r => bad = r?.or(bad.take()),
                            }
                        }
                        Ok(bad)
                    })?;
                    bad = r.or(bad);
                }
                s.check(&format!("{} point bytes arbitrary", h), &site, "what is read from arbitrary bytes is a point of the curve or an error", bad.is_none(), || bad.clone().unwrap_or_default());
                Ok(())
            });
        }
        self.check_serde()
    }
    fn inf_with(&mut self, k: &CurveCx<'tcx>, p: &Pt) -> R<V<'tcx>> {
        let v = self.aff_v(k, &Pt { inf: false, x: p.x.clone(), y: p.y.clone() })?;
        let V::Adt(a) = &v else { return unsup("point") };
        let mut f = a.f.clone();
        for x in f.iter_mut() {
            if let V::Int(0) = x {
                *x = V::Int(1);
            }
        }
        Ok(adt(a.ty, a.variant, f))
    }

    // ------------------------------------------------------------------ serde

    fn ext_item(&self, krate: &str, path: &[&str]) -> R<DefId> {
        let Some(c) = self.tcx.crates(()).iter().cloned().find(|c| self.tcx.crate_name(*c).as_str() == krate) else { return unsup(format!("crate {}", krate)) };
        let mut m = c.as_def_id();
        for p in path {
            let n = self.tcx.module_children(m).iter().find_map(|ch| match ch.res {
                Res::Def(k, d) if ch.ident.name.as_str() == *p && !matches!(k, rustc_hir::def::DefKind::Macro(..)) => Some(d),
                _ => None,
            });
            match n {
                Some(d) => m = d,
                None => return unsup(format!("{}::{}", krate, path.join("::"))),
            }
        }
        Ok(m)
    }
    fn item_of(&self, tr: DefId, n: &str) -> R<DefId> {
        match self.tcx.associated_item_def_ids(tr).iter().find(|d| self.tcx.item_name(**d).as_str() == n) {
            Some(d) => Ok(*d),
            None => unsup(format!("{} of {}", n, self.tcx.item_name(tr))),
        }
    }
    fn check_serde(&mut self) -> R<()> {
        let tcx = self.tcx;
        let ser_tr = self.ext_item("serde", &["ser", "Serialize"])?;
        let de_tr = self.ext_item("serde", &["de", "Deserialize"])?;
        let vis_tr = self.ext_item("serde", &["de", "Visitor"])?;
        let ser = self.item_of(ser_tr, "serialize")?;
        let de = self.item_of(de_tr, "deserialize")?;
        let er = tcx.lifetimes.re_erased;
        let dbg = tcx.get_diagnostic_item(rustc_span::sym::Debug).ok_or(Stop::Unsupported("Debug".into()))?;
        let fmt = self.item_of(dbg, "fmt")?;
        let fm = self.arg_tys(fmt, tcx.mk_args(&[tcx.types.u8.into()]))[1];
        let Some(fm) = fm.walk().filter_map(|t| t.as_type()).find_map(|t| t.ty_adt_def()) else { return unsup("Formatter") };
        let s_ty = Ty::new_mut_ref(tcx, er, Ty::new_adt(tcx, fm, tcx.mk_args(&[er.into()])));
        let err = self.ext_item("serde", &["de", "value", "Error"])?;
        let e_ty = Ty::new_adt(tcx, tcx.adt_def(err), ty::List::empty());
        let d_ty = Ty::new_adt(tcx, tcx.adt_def(self.ext_item("serde", &["de", "value", "U32Deserializer"])?), tcx.mk_args(&[e_ty.into()]));
        let rng = tcx.lang_items().range_struct().ok_or(Stop::Unsupported("Range".into()))?;
        let rng = Ty::new_adt(tcx, tcx.adt_def(rng), tcx.mk_args(&[tcx.types.u32.into()]));
        let a_ty = Ty::new_adt(tcx, tcx.adt_def(self.ext_item("serde", &["de", "value", "SeqDeserializer"])?), tcx.mk_args(&[rng.into(), e_ty.into()]));
        let map_tr = self.ext_item("serde", &["de", "MapAccess"])?;
        // any access to a map: only its item types matter
        let mut m_ty = None;
        for i in tcx.all_impls(map_tr) {
            let g = tcx.generics_of(i);
            let n = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            if n == 1 && matches!(st.kind(), ty::Adt(..)) {
                let ga = ty::GenericArgs::for_item(tcx, i, |p, _| if let ty::GenericParamDefKind::Type { .. } = p.kind { e_ty.into() } else { er.into() });
                m_ty = Some(tcx.erase_and_anonymize_regions(tcx.type_of(i).instantiate(tcx, ga).skip_norm_wip()));
            }
        }
        let pairs = self.curve_pairs()?;
        let fields = self.all_fields()?;
        let mut impls: Vec<DefId> = tcx.all_impls(ser_tr).filter(|i| i.is_local()).collect();
        impls.sort_by_key(|d| tcx.def_path_str(*d));
        let mut done: Vec<Ty<'tcx>> = vec![];
        for i in impls {
            // private types stand inside the bodies of derived implementations
            let g = tcx.generics_of(i);
            let nty = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).count();
            let mut insts: Vec<GenericArgsRef<'tcx>> = vec![];
            if nty == 0 {
                insts.push(ty::GenericArgs::for_item(tcx, i, |_, _| er.into()));
            } else {
                for &(c, inner) in &pairs {
                    for &f in &fields {
                        insts.push(self.args_for(i, c, inner, &[f]));
                    }
                }
            }
            for ga in insts {
                let t = tcx.erase_and_anonymize_regions(tcx.type_of(i).instantiate(tcx, ga).skip_norm_wip());
                let ty::Adt(ad, _) = t.kind() else { continue };
                if done.contains(&t) || ad.did().krate != self.plonky || !self.is_public_adt(ad.did()) {
                    continue;
                }
                done.push(t);
                let key = format!("serde {}", t);
                let site = self.impl_site(ser, tcx.mk_args(&[t.into(), s_ty.into()]));
                let s2 = site.clone();
                self.unit(&key.clone(), &s2, |s| s.serde_case(&key, &site, t, ser, de, vis_tr, s_ty, d_ty, e_ty, a_ty, m_ty));
            }
        }
        Ok(())
    }
    fn is_public_adt(&self, d: DefId) -> bool {
        self.adts.values().any(|v| v.contains(&d)) && !self.tcx.def_path_str(d).contains("::serialize::") && !self.tcx.item_name(d).as_str().starts_with("__")
    }
    #[allow(clippy::too_many_arguments)]
    fn serde_case(&mut self, key: &str, site: &str, t: Ty<'tcx>, ser: DefId, de: DefId, vis_tr: DefId, s_ty: Ty<'tcx>, d_ty: Ty<'tcx>, e_ty: Ty<'tcx>, a_ty: Ty<'tcx>, m_ty: Option<Ty<'tcx>>) -> R<()> {
        let tcx = self.tcx;
        let rule = "deserializing what was serialized gives the same value";
        // values: structures with arbitrary parts, elements, and points in all their forms
        let curve = if let ty::Adt(d, a) = t.kind() {
            if tcx.item_name(d.did()).as_str() == "AffinePoint" {
                a.types().next()
            } else {
                None
            }
        } else {
            None
        };
        let mut cases: Vec<(V<'tcx>, Option<Low>, bool)> = vec![];
        if let Some(c) = curve {
            let k = self.curve_cx(c)?;
            let p = self.pt(&k, "p");
            let v = self.aff_v(&k, &p)?;
            for low in [5u64, 8] {
                for sign in [false, true] {
                    cases.push((v.clone(), Some(Low { y: p.y.clone(), low }), sign));
                }
            }
            let inf = self.aff_v(&k, &Pt { inf: true, x: p.x.clone(), y: p.y.clone() })?;
            cases.push((inf, None, false));
        } else {
            let v = self.it.named("v", t);
            let v = self.it.materialize(&v)?;
            let mut vs = vec![v];
            // optional parts are there or not
            if let V::Adt(a) = vs[0].clone() {
                for (i, x) in a.f.iter().enumerate() {
                    let V::Sym(n, xt) = x else { continue };
                    if self.it.head(*xt) != "Option" {
                        continue;
                    }
                    let Some(inner) = xt.walk().filter_map(|t| t.as_type()).nth(1) else { continue };
                    let some = self.it.sym(self.it.sub_term(*n, ".0"), inner);
                    let alts = [self.it.none(*xt), self.it.some(*xt, some)];
                    vs = vs
                        .iter()
                        .flat_map(|v| {
                            let V::Adt(a) = v else { return vec![] };
                            alts.iter()
                                .map(|x| {
                                    let mut f = a.f.clone();
                                    f[i] = x.clone();
                                    adt(a.ty, a.variant, f)
                                })
                                .collect()
                        })
                        .collect();
                }
            }
            for v in vs {
                cases.push((v, None, false));
            }
        }
        let mut bad = None;
        for (v, low, sign) in cases {
            for seqs in [false, true] {
                let r = self.serial_scope(low.clone(), sign, |s| {
                    let rec: Rec<'tcx> = Default::default();
                    let cur: Rc<RefCell<(usize, String)>> = Default::default();
                    s.serde_hooks(&rec, &cur, vis_tr, d_ty, e_ty, if seqs || m_ty.is_none() { Err(a_ty) } else { Ok(m_ty.unwrap()) })?;
                    let ps = s.paths(60, |s| {
                        rec.borrow_mut().clear();
                        *cur.borrow_mut() = Default::default();
                        let r = s.call(ser, tcx.mk_args(&[t.into(), s_ty.into()]), vec![ptr_to(v.clone()), V::Sym(name("serializer"), s_ty)])?;
                        if s.it.variant(&r)?.0 != 0 {
                            return Ok(Some("serializing fails".to_string()));
                        }
                        if rec.borrow().len() != 1 {
                            return unsup("serialized as more than one item");
                        }
                        // fields left out can only be told from their names
                        if let (true, Some(Tok::Struct(f)), V::Adt(a)) = (seqs, rec.borrow().first(), &v) {
                            if f.len() < a.f.len() {
                                return Ok(None);
                            }
                        }
                        let ga = tcx.mk_args(&[t.into(), tcx.lifetimes.re_erased.into(), d_ty.into()]);
                        let r = s.call(de, ga, vec![V::Sym(name("deserializer"), d_ty)])?;
                        let (k, f) = s.it.variant(&r)?;
                        if k != 0 {
                            return Ok(Some("deserializing fails".to_string()));
                        }
                        let (a, b) = (s.it.deref_all(&f[0])?, s.it.deref_all(&v)?);
                        if curve.is_some() {
                            let none = HashMap::new();
                            let (Some(a), Some(b)) = (s.point_of(&a, &none)?, s.point_of(&b, &none)?) else { return unsup("point") };
                            return Ok(if a.inf == b.inf && (a.inf || s.pt_eq(&a, &b, &none)) { None } else { Some(format!("{} becomes {}", s.pt_show(&b), s.pt_show(&a))) });
                        }
                        let (x, y) = (s.it.vkey(&a), s.it.vkey(&b));
                        Ok(if x == y { None } else { Some(format!("{} becomes {}", b.show_d(3), a.show_d(3))) })
                    })?;
                    s.path_problem(ps)
                })?;
                bad = r.or(bad);
            }
        }
        self.check(key, site, rule, bad.is_none(), || bad.clone().unwrap_or_default());
        Ok(())
    }
    fn serde_hooks(&mut self, rec: &Rec<'tcx>, cur: &Rc<RefCell<(usize, String)>>, vis_tr: DefId, d_ty: Ty<'tcx>, e_ty: Ty<'tcx>, acc: Result<Ty<'tcx>, Ty<'tcx>>) -> R<()> {
        let tcx = self.tcx;
        let er = tcx.lifetimes.re_erased;
        let visit = |s: &Self, n: &str| s.item_of(vis_tr, n);
        let (vb, vm, vs, vu, vstr) = (visit(self, "visit_bytes")?, visit(self, "visit_map")?, visit(self, "visit_seq")?, visit(self, "visit_unit")?, visit(self, "visit_str")?);
        let de_tr = self.ext_item("serde", &["de", "Deserialize"])?;
        let de = self.item_of(de_tr, "deserialize")?;
        fn last<'t>(i: &Instance<'t>) -> R<Ty<'t>> {
            match i.args.types().last() {
                Some(t) => Ok(t),
                None => unsup("type argument"),
            }
        }
        // ---- writing
        for m in ["serialize_bytes", "serialize_unit_struct", "serialize_struct", "serialize_field", "end", "skip_field"] {
            let rec = rec.clone();
            let k = if ["serialize_field", "end", "skip_field"].contains(&m) { format!("SerializeStruct::{}", m) } else { format!("Serializer::{}", m) };
            self.it.hooks.insert(
                k,
                Rc::new(move |it: &mut Interp<'tcx>, inst, args, dt| {
                    let ok = |v| Ok(Some(adt(dt, 0, vec![v])));
                    match m {
                        "serialize_bytes" => {
                            let b = it.seq_items(&args[1])?;
                            rec.borrow_mut().push(Tok::Bytes(seq(b.to_vec())));
                            ok(it.unit())
                        }
                        "serialize_unit_struct" => {
                            rec.borrow_mut().push(Tok::Unit);
                            ok(it.unit())
                        }
                        "serialize_struct" => {
                            rec.borrow_mut().push(Tok::Struct(vec![]));
                            ok(V::Sym(name("serializer"), dt))
                        }
                        "serialize_field" => {
                            let V::Str(n) = it.deref_all(&args[1])? else { return unsup("field name") };
                            let v = it.deref_all(&args[2])?;
                            match rec.borrow_mut().last_mut() {
                                Some(Tok::Struct(f)) => f.push((n.to_string(), v, last(&inst)?)),
                                _ => return unsup("field outside a structure"),
                            }
                            ok(it.unit())
                        }
                        _ => ok(it.unit()),
                    }
                }),
            );
        }
        // ---- reading
        for m in ["deserialize_bytes", "deserialize_byte_buf", "deserialize_unit_struct", "deserialize_struct", "deserialize_identifier", "deserialize_any", "deserialize_ignored_any"] {
            let (rec, cur) = (rec.clone(), cur.clone());
            self.it.hooks.insert(
                format!("Deserializer::{}", m),
                Rc::new(move |it: &mut Interp<'tcx>, inst, args, dt| {
                    let vt = last(&inst)?;
                    let Some(v) = args.last().cloned() else { return unsup("visitor") };
                    let call = |it: &mut Interp<'tcx>, d: DefId, a: Ty<'tcx>, x: Vec<V<'tcx>>| {
                        let ga = tcx.mk_args(&[vt.into(), er.into(), a.into()]);
                        it.call_def(d, ga, x, dt, false).map(Some)
                    };
                    if m == "deserialize_identifier" {
                        let n = cur.borrow().1.clone();
                        return call(it, vstr, e_ty, vec![v, V::Str(n.as_str().into())]);
                    }
                    enum K<'t> {
                        B(V<'t>),
                        S,
                        U,
                    }
                    let k = match rec.borrow().first() {
                        Some(Tok::Bytes(b)) => K::B(b.clone()),
                        Some(Tok::Struct(_)) => K::S,
                        Some(Tok::Unit) => K::U,
                        None => return unsup("nothing was serialized"),
                    };
                    match (k, m) {
                        (K::B(b), "deserialize_bytes" | "deserialize_byte_buf" | "deserialize_any") => call(it, vb, e_ty, vec![v, ptr_to(b)]),
                        (K::U, "deserialize_unit_struct" | "deserialize_any") => {
                            let ga = tcx.mk_args(&[vt.into(), er.into(), e_ty.into()]);
                            it.call_def(vu, ga, vec![v], dt, false).map(Some)
                        }
                        (K::S, "deserialize_struct" | "deserialize_any") => match acc {
                            Ok(a) => call(it, vm, a, vec![v, V::Sym(name("access"), a)]),
                            Err(a) => call(it, vs, a, vec![v, V::Sym(name("access"), a)]),
                        },
                        _ => unsup(format!("{} of another kind of item", m)),
                    }
                }),
            );
        }
        for m in ["MapAccess::next_key", "MapAccess::next_value", "SeqAccess::next_element", "MapAccess::next_entry", "SeqAccess::size_hint", "MapAccess::size_hint"] {
            let (rec, cur) = (rec.clone(), cur.clone());
            self.it.hooks.insert(
                m.into(),
                Rc::new(move |it: &mut Interp<'tcx>, inst, _, dt| {
                    let t = last(&inst);
                    let i = cur.borrow().0;
                    let item = match rec.borrow().first() {
                        Some(Tok::Struct(f)) => f.get(i).map(|x| (x.0.clone(), x.1.clone(), x.2)),
                        _ => return unsup("no structure to read"),
                    };
                    // Result<Option<T>, E>
                    let opt = dt.walk().filter_map(|x| x.as_type()).nth(1).unwrap_or(dt);
                    match m {
                        "MapAccess::next_key" => {
                            let Some((n, _, _)) = item else {
                                let o = it.none(opt);
                                return Ok(Some(adt(dt, 0, vec![o])));
                            };
                            cur.borrow_mut().1 = n;
                            let t = t?;
                            let ga = tcx.mk_args(&[t.into(), er.into(), d_ty.into()]);
                            let rt = tcx.fn_sig(de).instantiate(tcx, ga).skip_norm_wip().output().skip_binder();
                            let rt = it.norm(tcx.erase_and_anonymize_regions(rt));
                            let r = it.call_def(de, ga, vec![V::Sym(name("deserializer"), d_ty)], rt, false)?;
                            let (v, f) = it.variant(&r)?;
                            if v != 0 {
                                return Ok(Some(adt(dt, 1, f)));
                            }
                            let o = it.some(opt, f[0].clone());
                            Ok(Some(adt(dt, 0, vec![o])))
                        }
                        "MapAccess::next_value" | "SeqAccess::next_element" => {
                            let (_, v, ty) = match item {
                                Some(x) => x,
                                None if m == "SeqAccess::next_element" => {
                                    let o = it.none(opt);
                                    return Ok(Some(adt(dt, 0, vec![o])));
                                }
                                None => return unsup("value of no field"),
                            };
                            cur.borrow_mut().0 += 1;
                            let t = t?;
                            let n = it.norm(t);
                            if n != it.norm(ty) && it.head(n) != "IgnoredAny" {
                                return unsup(format!("a field serialized as {} is read as {}", ty, t));
                            }
                            let o = if m == "MapAccess::next_value" { v } else { it.some(opt, v) };
                            Ok(Some(adt(dt, 0, vec![o])))
                        }
                        _ => unsup(m),
                    }
                }),
            );
        }
        Ok(())
    }
}
