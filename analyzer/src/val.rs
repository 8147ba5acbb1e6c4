//! Abstract values.
use crate::poly::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Ty};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Cell<'tcx> = Rc<RefCell<V<'tcx>>>;

#[derive(Clone)]
pub enum V<'tcx> {
    Uninit,
    Int(u128),
    F(Poly),
    Sym(TermId, Ty<'tcx>),
    Adt(Rc<AdtV<'tcx>>),
    Seq(Rc<Vec<V<'tcx>>>),
    Ref(Ptr<'tcx>),
    Box(Cell<'tcx>),
    Shared(Cell<'tcx>),
    Fn(DefId, GenericArgsRef<'tcx>),
    It(Rc<It<'tcx>>),
    Map(Rc<MapV<'tcx>>),
    Str(Rc<str>),
}

#[derive(Clone)]
pub struct AdtV<'tcx> {
    pub ty: Ty<'tcx>,
    pub variant: u32,
    pub f: Vec<V<'tcx>>,
}

#[derive(Clone)]
pub struct Ptr<'tcx> {
    pub cell: Cell<'tcx>,
    pub path: Rc<Vec<P>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P {
    Field(usize),
    Variant(u32),
    Index(usize),
    Sub(usize, usize),
    /// entry value of a map
    Entry(TermId),
}

#[derive(Clone, Default)]
pub struct MapV<'tcx> {
    /// key term -> (insertion number, key, value)
    pub m: BTreeMap<TermId, (u64, V<'tcx>, V<'tcx>)>,
    pub n: u64,
    pub set: bool,
    /// iterated in the order of the keys
    pub tree: bool,
}
/// the order of integer keys (and tuples, options and structures of them)
fn key_order<'tcx>(a: &V<'tcx>, b: &V<'tcx>) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::Equal;
    match (a, b) {
        (V::Int(x), V::Int(y)) => Some(x.cmp(y)),
        (V::Str(x), V::Str(y)) => Some(x.cmp(y)),
        (V::Adt(x), V::Adt(y)) => {
            let c = x.variant.cmp(&y.variant);
            if c != Equal {
                return Some(c);
            }
            for (p, q) in x.f.iter().zip(&y.f) {
                let c = key_order(p, q)?;
                if c != Equal {
                    return Some(c);
                }
            }
            Some(x.f.len().cmp(&y.f.len()))
        }
        (V::Seq(x), V::Seq(y)) => {
            for (p, q) in x.iter().zip(y.iter()) {
                let c = key_order(p, q)?;
                if c != Equal {
                    return Some(c);
                }
            }
            Some(x.len().cmp(&y.len()))
        }
        _ => None,
    }
}
thread_local! {
    static MAP_ORDER: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// the order in which hash maps and sets are iterated: insertion, its reverse, or scrambled
pub fn set_map_order(o: u8) {
    MAP_ORDER.with(|x| x.set(o))
}
impl<'tcx> MapV<'tcx> {
    pub fn ordered(&self) -> Vec<(TermId, V<'tcx>, V<'tcx>)> {
        let mut v: Vec<_> = self.m.iter().map(|(k, e)| (e.0, *k, e.1.clone(), e.2.clone())).collect();
        v.sort_by_key(|x| x.0);
        if self.tree {
            // keys the domain cannot order stay in the order of insertion
            let known = v.windows(2).all(|w| key_order(&w[0].2, &w[1].2).is_some());
            if known {
                v.sort_by(|a, b| key_order(&a.2, &b.2).unwrap_or(std::cmp::Ordering::Equal));
            }
            return v.into_iter().map(|x| (x.1, x.2, x.3)).collect();
        }
        match MAP_ORDER.with(|o| o.get()) {
            1 => v.reverse(),
            2 => v.sort_by_key(|x| (x.0 as u64).wrapping_add(3).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29)),
            _ => {}
        }
        v.into_iter().map(|x| (x.1, x.2, x.3)).collect()
    }
}

#[derive(Clone)]
pub enum It<'tcx> {
    Items(Rc<Vec<V<'tcx>>>, usize, usize),
    /// yields references to elements of the sequence at ptr
    Refs(Ptr<'tcx>, usize, usize),
    Range(i128, i128),
    Map(V<'tcx>, V<'tcx>),
    Filter(V<'tcx>, V<'tcx>),
    FilterMap(V<'tcx>, V<'tcx>),
    FlatMap(V<'tcx>, Option<V<'tcx>>, Option<V<'tcx>>),
    Zip(V<'tcx>, V<'tcx>),
    Enumerate(V<'tcx>, usize),
    Rev(V<'tcx>),
    Chain(Option<V<'tcx>>, V<'tcx>),
    Skip(V<'tcx>, usize),
    Take(V<'tcx>, usize),
    StepBy(V<'tcx>, usize, bool),
    Cloned(V<'tcx>),
    TakeWhile(V<'tcx>, V<'tcx>, bool),
    SkipWhile(V<'tcx>, V<'tcx>, bool),
    Inspect(V<'tcx>, V<'tcx>),
    Cycle(Rc<Vec<V<'tcx>>>, usize),
    Repeat(V<'tcx>),
    Peekable(V<'tcx>, Option<Option<V<'tcx>>>),
    Scan(V<'tcx>, Cell<'tcx>, V<'tcx>),
    FromFn(V<'tcx>),
    Successors(Option<V<'tcx>>, V<'tcx>),
}

#[derive(Debug, Clone)]
pub enum Stop {
    Panic(String),
    Unsupported(String),
}
pub type R<T> = Result<T, Stop>;

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}

pub fn cell<'tcx>(v: V<'tcx>) -> Cell<'tcx> {
    Rc::new(RefCell::new(v))
}
pub fn ptr_to<'tcx>(v: V<'tcx>) -> V<'tcx> {
    V::Ref(Ptr { cell: cell(v), path: Rc::new(vec![]) })
}
pub fn seq<'tcx>(v: Vec<V<'tcx>>) -> V<'tcx> {
    V::Seq(Rc::new(v))
}
pub fn adt<'tcx>(ty: Ty<'tcx>, variant: u32, f: Vec<V<'tcx>>) -> V<'tcx> {
    V::Adt(Rc::new(AdtV { ty, variant, f }))
}

impl<'tcx> V<'tcx> {
    pub fn int(&self) -> R<u128> {
        match self {
            V::Int(i) => Ok(*i),
            o => unsup(format!("expected a concrete integer, got {}", o.show())),
        }
    }
    pub fn usz(&self) -> R<usize> {
        Ok(self.int()? as usize)
    }
    pub fn items(&self) -> R<Rc<Vec<V<'tcx>>>> {
        match self {
            V::Seq(s) => Ok(s.clone()),
            o => unsup(format!("expected a sequence, got {}", o.show())),
        }
    }
    pub fn poly(&self) -> R<Poly> {
        match self {
            V::F(p) => Ok(p.clone()),
            o => unsup(format!("expected a field element, got {}", o.show())),
        }
    }
    pub fn field(&self, i: usize) -> R<V<'tcx>> {
        match self {
            V::Adt(a) if i < a.f.len() => Ok(a.f[i].clone()),
            o => unsup(format!("expected a struct with field {}, got {}", i, o.show())),
        }
    }
    pub fn show(&self) -> String {
        self.show_d(4)
    }
    pub fn show_d(&self, d: usize) -> String {
        if d == 0 {
            return "…".into();
        }
        match self {
            V::Uninit => "uninit".into(),
            V::Int(i) => i.to_string(),
            V::F(p) => p.show(),
            V::Sym(t, _) => show(*t),
            V::Adt(a) => {
                let n = match a.ty.kind() {
                    ty::Adt(def, _) => {
                        let full = format!("{:?}", def.did());
                        let mut s = full.rsplit("::").next().unwrap_or("").trim_end_matches(')').to_string();
                        if def.is_enum() {
                            s = format!("{}::{}", s, def.variant(rustc_abi::VariantIdx::from_u32(a.variant)).name);
                        }
                        s
                    }
                    _ => String::new(),
                };
                format!("{}({})", n, a.f.iter().map(|x| x.show_d(d - 1)).collect::<Vec<_>>().join(", "))
            }
            V::Seq(s) => {
                let mut v: Vec<String> = s.iter().take(8).map(|x| x.show_d(d - 1)).collect();
                if s.len() > 8 {
                    v.push(format!("…{}", s.len()))
                }
                format!("[{}]", v.join(", "))
            }
            V::Ref(p) => match p.cell.try_borrow() {
                Ok(v) => format!("&{}{:?}", v.show_d(d - 1), p.path),
                _ => "&<busy>".into(),
            },
            V::Box(c) | V::Shared(c) => match c.try_borrow() {
                Ok(v) => format!("box {}", v.show_d(d - 1)),
                _ => "box <busy>".into(),
            },
            V::Fn(d, _) => format!("{:?}", d),
            V::It(_) => "<iter>".into(),
            V::Map(m) => format!("<map of {}>", m.m.len()),
            V::Str(s) => format!("{:?}", s),
        }
    }
}
