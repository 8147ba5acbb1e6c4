//! Effects: what results may depend on besides the arguments. Calls are followed between monomorphic instances
//! (the standard library's generic code included), from each function that has to be deterministic and from every
//! closure handed to a parallel iterator.
use crate::base::*;
use crate::poly::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, Operand, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TypeVisitableExt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

pub struct Walk<'tcx> {
    /// every instance reached, and the one it was reached from
    pub from: HashMap<Instance<'tcx>, Option<Instance<'tcx>>>,
    pub order: Vec<Instance<'tcx>>,
    /// calls to functions without a body to look into
    pub leaves: Vec<(DefId, Instance<'tcx>)>,
    pub unresolved: Vec<(String, Instance<'tcx>)>,
}

/// what a value computed in a body can reach
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Debug)]
pub enum Reach {
    Nothing,
    Control,
    Result,
}

const UNORDERED: &[&str] = &["par_bridge", "find_any", "find_map_any", "position_any", "take_any", "skip_any", "take_any_while", "skip_any_while"];
const ORDERED: &[&str] = &[
    "into_par_iter", "par_iter", "par_iter_mut", "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_chunks_exact_mut", "par_windows", "map", "map_with", "map_init", "zip", "zip_eq", "enumerate", "collect", "collect_into_vec", "cloned", "copied", "chunks",
    "rev", "flat_map", "flat_map_iter", "flatten", "flatten_iter", "filter", "filter_map", "for_each", "for_each_with", "any", "all", "count", "join", "take", "skip", "step_by", "interleave", "chain", "with_min_len", "with_max_len", "unzip", "partition", "min", "max",
    "find_first", "find_last", "position_first", "find_map_first", "len", "opt_len", "inspect", "update", "repeatn", "par_sort", "par_split", "par_extend", "unzip_into_vecs", "current_num_threads", "build", "num_threads", "install", "new", "par_sort_by", "par_sort_by_key", "try_for_each", "as_parallel_slice", "as_parallel_slice_mut",
];

impl<'tcx> Ctx<'tcx> {
    fn krate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn user(&self, d: DefId) -> bool {
        matches!(self.krate_of(d).as_str(), "plonky" | "plookup")
    }
    fn closures_in(&self, t: ty::GenericArgsRef<'tcx>, out: &mut Vec<Instance<'tcx>>) {
        for a in t.iter() {
            for x in a.walk() {
                if let ty::GenericArgKind::Type(t) = x.kind() {
                    match t.kind() {
                        ty::Closure(d, ga) => out.push(Instance { def: InstanceKind::Item(*d), args: ga }),
                        ty::FnDef(d, ga) => {
                            if let Some(ga) = ga.no_bound_vars() {
                                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.it.te, *d, ga) {
                                    out.push(i)
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    fn body_of(&self, i: Instance<'tcx>) -> Option<&'tcx mir::Body<'tcx>> {
        match i.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) || self.tcx.is_foreign_item(d) || self.tcx.is_constructor(d) && !d.is_local() {
                    return None;
                }
                Some(self.tcx.instance_mir(i.def))
            }
            InstanceKind::Shim(_) => Some(self.tcx.instance_mir(i.def)),
            _ => None,
        }
    }
    /// the function called and its arguments
    fn callee(&self, i: Instance<'tcx>, f: &Operand<'tcx>) -> Option<(DefId, ty::GenericArgsRef<'tcx>)> {
        let Operand::Constant(c) = f else { return None };
        let t = self.it.mono(i, c.const_.ty());
        match t.kind() {
            ty::FnDef(d, ga) => ga.no_bound_vars().map(|g| (*d, g)),
            _ => None,
        }
    }
    /// instances a call can enter
    fn enter(&self, d: DefId, ga: ty::GenericArgsRef<'tcx>) -> Option<Vec<Instance<'tcx>>> {
        if ga.has_escaping_bound_vars() || ga.has_non_region_param() {
            return None;
        }
        let k = self.krate_of(d);
        if k.starts_with("rayon") {
            let mut v = vec![];
            self.closures_in(ga, &mut v);
            return Some(v);
        }
        match Instance::try_resolve(self.tcx, self.it.te, d, ga) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Virtual(..) => Some(vec![]),
                _ => Some(vec![i]),
            },
            _ => None,
        }
    }
    pub fn walk(&self, roots: &[Instance<'tcx>]) -> Walk<'tcx> {
        self.walk_past(roots, false)
    }
    /// a function of the crate with a switch among its parameters
    fn switched(&self, i: Instance<'tcx>) -> bool {
        self.user(i.def_id()) && matches!(i.def, InstanceKind::Item(_)) && self.body_of(i).map(|b| b.args_iter().any(|l| b.local_decls[l].ty.is_bool())).unwrap_or(false)
    }
    fn walk_past(&self, roots: &[Instance<'tcx>], no_switches: bool) -> Walk<'tcx> {
        let mut w = Walk { from: HashMap::new(), order: vec![], leaves: vec![], unresolved: vec![] };
        let mut q: VecDeque<Instance<'tcx>> = VecDeque::new();
        for r in roots {
            if w.from.insert(*r, None).is_none() {
                q.push_back(*r);
            }
        }
        while let Some(i) = q.pop_front() {
            w.order.push(i);
            let p = self.tcx.def_path_str(i.def_id());
            // output and unwinding do not feed results back
            let quiet = ["core::fmt", "std::fmt", "alloc::fmt", "std::io", "std::panicking", "core::panicking", "std::backtrace", "std::rt", "alloc::alloc", "std::alloc", "std::sys", "std::thread", "core::unicode"].iter().any(|x| p.starts_with(x) || p.starts_with(&format!("<{}", x)));
            let k = self.krate_of(i.def_id());
            if quiet || matches!(k.as_str(), "log" | "backtrace" | "blake3") || k.starts_with("rayon") {
                continue;
            }
            let Some(body) = self.body_of(i) else {
                let l = (i.def_id(), w.from[&i].unwrap_or(i));
                w.leaves.push(l);
                continue;
            };
            let mut next: Vec<Instance<'tcx>> = vec![];
            for bb in body.basic_blocks.iter() {
                if bb.is_cleanup {
                    continue;
                }
                for s in &bb.statements {
                    if let StatementKind::Assign(b) = &s.kind {
                        match &b.1 {
                            Rvalue::Aggregate(kd, _) => {
                                if let mir::AggregateKind::Closure(d, ga) = **kd {
                                    next.push(Instance { def: InstanceKind::Item(d), args: self.it.mono(i, ga) });
                                }
                            }
                            Rvalue::Cast(mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), op, to) => {
                                let from = self.it.mono(i, op.ty(&body.local_decls, self.tcx));
                                let to = self.it.mono(i, *to);
                                self.vtable(from, to, &mut next);
                            }
                            Rvalue::Cast(mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _), op, _) => {
                                let t = self.it.mono(i, op.ty(&body.local_decls, self.tcx));
                                if let ty::FnDef(d, ga) = t.kind() {
                                    if let Some(ga) = ga.no_bound_vars() {
                                        next.extend(self.enter(*d, ga).unwrap_or_default());
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if let Some(t) = &bb.terminator {
                    if let TerminatorKind::Call { func, .. } = &t.kind {
                        if let Some((d, ga)) = self.callee(i, func) {
                            match self.enter(d, ga) {
                                Some(v) => next.extend(v),
                                None => w.unresolved.push((self.tcx.def_path_str(d), i)),
                            }
                        }
                    }
                }
            }
            for n in next {
                if let InstanceKind::Intrinsic(_) = n.def {
                    continue;
                }
                if no_switches && self.switched(n) {
                    continue;
                }
                if !w.from.contains_key(&n) {
                    w.from.insert(n, Some(i));
                    q.push_back(n);
                }
            }
        }
        w
    }
    fn vtable(&self, from: Ty<'tcx>, to: Ty<'tcx>, out: &mut Vec<Instance<'tcx>>) {
        let inner = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t),
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            }
        };
        let (Some(mut f), Some(mut t)) = (inner(from), inner(to)) else { return };
        for _ in 0..3 {
            if let ty::Dynamic(..) = t.kind() {
                break;
            }
            match (inner(f), inner(t)) {
                (Some(a), Some(b)) => {
                    f = a;
                    t = b
                }
                _ => return,
            }
        }
        let ty::Dynamic(preds, _) = t.kind() else { return };
        if let ty::Closure(d, ga) = f.kind() {
            out.push(Instance { def: InstanceKind::Item(*d), args: ga });
            return;
        }
        let Some(pr) = preds.principal() else { return };
        let tr = pr.def_id();
        let pr = self.tcx.instantiate_bound_regions_with_erased(pr);
        for m in self.tcx.associated_item_def_ids(tr) {
            if self.tcx.def_kind(*m) != DefKind::AssocFn || self.tcx.generics_of(*m).own_requires_monomorphization() {
                continue;
            }
            let rest: Vec<ty::GenericArg<'tcx>> = std::iter::once(f.into()).chain(pr.args.iter()).collect();
            if rest.len() < self.tcx.generics_of(tr).count() {
                continue;
            }
            let args = ty::GenericArgs::for_item(self.tcx, *m, |p, _| if (p.index as usize) < rest.len() { rest[p.index as usize] } else { self.tcx.lifetimes.re_erased.into() });
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.it.te, *m, args) {
                if !matches!(i.def, InstanceKind::Virtual(..)) {
                    out.push(i)
                }
            }
        }
    }
    fn path(&self, w: &Walk<'tcx>, i: Instance<'tcx>) -> String {
        let mut v = vec![];
        let mut c = Some(i);
        while let Some(x) = c {
            if self.user(x.def_id()) || v.is_empty() {
                v.push(self.tcx.def_path_str(x.def_id()));
            }
            c = w.from.get(&x).copied().flatten();
        }
        v.reverse();
        v.dedup();
        v.join(" -> ")
    }
    /// what the given locals of a body influence
    fn influence(&self, body: &mir::Body<'tcx>, seeds: &[mir::Local]) -> Reach {
        let mut t: HashSet<mir::Local> = seeds.iter().copied().collect();
        let mut refs: HashMap<mir::Local, mir::Local> = HashMap::new();
        let mut r = Reach::Nothing;
        let uses = |t: &HashSet<mir::Local>, o: &Operand<'tcx>| o.place().map(|p| t.contains(&p.local)).unwrap_or(false);
        loop {
            let n = t.len();
            for bb in body.basic_blocks.iter() {
                for s in &bb.statements {
                    let StatementKind::Assign(b) = &s.kind else { continue };
                    let (p, rv) = &**b;
                    let mut hit = false;
                    match rv {
                        Rvalue::Use(o, ..) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) => hit = uses(&t, o),
                        Rvalue::BinaryOp(_, b) => hit = uses(&t, &b.0) || uses(&t, &b.1),
                        Rvalue::Ref(_, k, q) => {
                            hit = t.contains(&q.local);
                            if let mir::BorrowKind::Mut { .. } = k {
                                refs.insert(p.local, q.local);
                            }
                        }
                        Rvalue::RawPtr(_, q) | Rvalue::Discriminant(q) => hit = t.contains(&q.local),
                        Rvalue::Aggregate(_, os) => hit = os.iter().any(|o| uses(&t, o)),
                        _ => {}
                    }
                    if let Rvalue::Use(o, ..) = rv {
                        if let Some(q) = o.place().and_then(|q| refs.get(&q.local).copied()) {
                            refs.insert(p.local, q);
                        }
                    }
                    if hit {
                        t.insert(p.local);
                        if p.is_indirect() && (p.local.as_usize() <= body.arg_count) {
                            r = r.max(Reach::Result);
                        }
                        if let Some(q) = refs.get(&p.local) {
                            t.insert(*q);
                        }
                    }
                }
                match &bb.terminator().kind {
                    TerminatorKind::Call { func, args, destination, .. } => {
                        if args.iter().any(|a| uses(&t, &a.node)) {
                            // formatted output does not come back
                            let name = func.constant().map(|c| c.const_.ty()).and_then(|t| if let ty::FnDef(d, _) = t.kind() { Some(self.tcx.def_path_str(*d)) } else { None }).unwrap_or_default();
                            let dt = destination.ty(&body.local_decls, self.tcx).ty;
                            if !(name.contains("fmt::") || name.starts_with("log::") || name.contains("::_print") || name.contains("_eprint")) && !dt.is_unit() {
                                t.insert(destination.local);
                            }
                            for a in args {
                                if let Some(q) = a.node.place().and_then(|p| refs.get(&p.local).copied()) {
                                    if !name.contains("fmt::") {
                                        t.insert(q);
                                    }
                                }
                            }
                        }
                    }
                    TerminatorKind::SwitchInt { discr, .. } if uses(&t, discr) => r = r.max(Reach::Control),
                    _ => {}
                }
            }
            if t.len() == n {
                break;
            }
        }
        if t.contains(&mir::RETURN_PLACE) {
            r = Reach::Result;
        }
        r
    }
    /// locals that hold what calls to the named functions return
    fn results_of(&self, body: &mir::Body<'tcx>, m: &dyn Fn(&str) -> bool) -> Vec<mir::Local> {
        let mut v = vec![];
        for bb in body.basic_blocks.iter() {
            if let TerminatorKind::Call { func, destination, .. } = &bb.terminator().kind {
                if let Some(c) = func.constant() {
                    if let ty::FnDef(d, _) = c.const_.ty().kind() {
                        if m(&self.tcx.def_path_str(*d)) {
                            v.push(destination.local)
                        }
                    }
                }
            }
        }
        v
    }
    fn statics_in(&self, body: &mir::Body<'tcx>) -> HashSet<DefId> {
        let mut s = HashSet::new();
        for c in &body.required_consts.clone().unwrap_or_default() {
            if let Some(d) = c.check_static_ptr(self.tcx) {
                s.insert(d);
            }
        }
        struct Vis<'a, 'tcx>(&'a mut HashSet<DefId>, ty::TyCtxt<'tcx>);
        impl<'a, 'tcx> mir::visit::Visitor<'tcx> for Vis<'a, 'tcx> {
            fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
                if let Some(d) = c.check_static_ptr(self.1) {
                    self.0.insert(d);
                }
            }
            fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: mir::Location) {
                if let Rvalue::ThreadLocalRef(d) = r {
                    self.0.insert(*d);
                }
                self.super_rvalue(r, l)
            }
        }
        use mir::visit::Visitor;
        Vis(&mut s, self.tcx).visit_body(body);
        s
    }
    /// instances of a function, its type parameters taken from the cycle curves and their fields
    fn instances(&self, d: DefId) -> R<Vec<Instance<'tcx>>> {
        let tcx = self.tcx;
        let mut out = vec![];
        for (c, i) in self.curve_pairs()? {
            let mut ok = true;
            let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 2).into(),
                ty::GenericParamDefKind::Type { .. } => {
                    let (b, proj) = self.bounds(d, p.index);
                    let has = |x: &str| b.iter().any(|y| y == x);
                    if has("HaloCurve") || has("Curve") {
                        if proj { i } else { c }.into()
                    } else if has("Field") {
                        self.scalar(c).unwrap().into()
                    } else {
                        ok = false;
                        tcx.types.u64.into()
                    }
                }
            });
            if !ok {
                return unsup("a type parameter without a bound of the crate");
            }
            let i = Instance { def: InstanceKind::Item(d), args };
            if !out.contains(&i) {
                out.push(i)
            }
        }
        Ok(out)
    }

    pub fn check_effects(&mut self) -> R<()> {
        let tcx = self.tcx;
        let mut bodies: Vec<DefId> = tcx.mir_keys(()).iter().map(|d| d.to_def_id()).filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)).collect();
        bodies.sort_by_key(|d| tcx.def_path_hash(*d));
        // 1. parallel iterators that keep the order of their elements
        let mut parallel: Vec<DefId> = vec![];
        for &d in &bodies {
            let body = tcx.optimized_mir(d);
            let mut n: BTreeMap<String, usize> = BTreeMap::new();
            for bb in body.basic_blocks.iter() {
                if bb.is_cleanup {
                    continue;
                }
                let TerminatorKind::Call { func, .. } = &bb.terminator().kind else { continue };
                let Some(c) = func.constant() else { continue };
                let ty::FnDef(f, _) = c.const_.ty().kind() else { continue };
                if !self.krate_of(*f).starts_with("rayon") {
                    continue;
                }
                if !parallel.contains(&d) {
                    parallel.push(d);
                }
                let m = tcx.item_name(*f).to_string();
                let k = n.entry(m.clone()).or_default();
                *k += 1;
                let key = format!("parallel {} {} {}", tcx.def_path_str(d), m, k);
                let site = self.site(d);
                let st = if UNORDERED.contains(&m.as_str()) {
                    St::Violation
                } else if ORDERED.contains(&m.as_str()) {
                    St::Ok
                } else {
                    St::Undecided
                };
                self.ob(&key, &site, "a parallel iterator yields the same elements in the same order under every schedule", st, if st == St::Ok { String::new() } else { format!("{} of the thread pool", m) });
            }
        }
        if self.krate_of(bodies.first().copied().unwrap_or(rustc_hir::def_id::CRATE_DEF_ID.to_def_id())) == "plonky" && parallel.is_empty() {
            return unsup("no parallel code found");
        }
        // 2. closures run in parallel share no mutable state
        for d in parallel {
            let root = tcx.typeck_root_def_id(d);
            let site = self.site(d);
            let key = format!("closures {}", tcx.def_path_str(d));
            self.unit(&key.clone(), &site.clone(), |s| s.parallel_case(root, d, &key, &site));
        }
        // 3. state that survives calls
        let statics: Vec<DefId> = tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).filter(|d| matches!(tcx.def_kind(*d), DefKind::Static { .. })).collect();
        for s in statics {
            let t = tcx.type_of(s).instantiate_identity().skip_norm_wip();
            let mutable = tcx.is_mutable_static(s);
            let frozen = t.is_freeze(tcx, self.it.te);
            let name = tcx.def_path_str(s);
            let site = self.site(s);
            if !mutable && frozen {
                self.ob(&format!("static {}", name), &site, "shared state is constant or guarded", St::Ok, String::new());
                continue;
            }
            let ts = t.to_string();
            let guarded = ["Mutex<", "RwLock<", "Once", "Lazy"].iter().any(|x| ts.contains(x));
            let st = if mutable && !tcx.is_thread_local_static(s) {
                St::Violation
            } else if guarded {
                St::Ok
            } else {
                St::Undecided
            };
            self.ob(&format!("static {}", name), &site, "shared state is constant or guarded", st, ts.clone());
            if ts.contains("Mutex<") || ts.contains("RwLock<") {
                for &d in &bodies {
                    let body = tcx.optimized_mir(d);
                    if !self.statics_in(body).contains(&s) {
                        continue;
                    }
                    let key = format!("lock {} in {}", name, tcx.def_path_str(d));
                    let site = self.site(d);
                    self.unit(&key.clone(), &site.clone(), |c| c.lock_case(s, d, &key, &site));
                }
            }
        }
        // 4. functions of their arguments
        self.check_pure()
    }
    fn calls_named(&self, i: Instance<'tcx>, names: &[&str]) -> bool {
        let Some(body) = self.body_of(i) else { return false };
        body.basic_blocks.iter().any(|bb| match &bb.terminator().kind {
            TerminatorKind::Call { func, .. } => match self.callee(i, func) {
                Some((f, _)) => names.iter().any(|n| self.tcx.item_name(f).as_str().starts_with(n)),
                None => false,
            },
            _ => false,
        })
    }
    /// a sequence is extended at its end or a cell taken over: the result depends on who comes first
    fn grows(&self, i: Instance<'tcx>) -> bool {
        self.calls_named(i, &["push", "extend", "append", "insert", "get_or_insert", "pop", "replace", "take"])
    }
    fn parallel_case(&mut self, root: DefId, d: DefId, key: &str, site: &str) -> R<()> {
        let roots = self.instances(root)?;
        let w = self.walk(&roots);
        let mut heads: Vec<Instance<'tcx>> = vec![];
        for i in &w.order {
            if i.def_id() != d {
                continue;
            }
            let Some(body) = self.body_of(*i) else { continue };
            for bb in body.basic_blocks.iter() {
                let TerminatorKind::Call { func, .. } = &bb.terminator().kind else { continue };
                let Some((f, ga)) = self.callee(*i, func) else { continue };
                if self.krate_of(f).starts_with("rayon") {
                    self.closures_in(ga, &mut heads);
                }
            }
        }
        // what is sorted afterwards may be collected in any order
        let sorted = w.order.iter().filter(|i| i.def_id() == d).any(|i| self.calls_named(*i, &["sort"]));
        let w = self.walk(&heads);
        let mut seen = HashSet::new();
        let mut n = 0;
        for i in &w.order {
            if !self.user(i.def_id()) {
                continue;
            }
            n += 1;
            let Some(body) = self.body_of(*i) else { continue };
            for bb in body.basic_blocks.iter() {
                let TerminatorKind::Call { func, args, .. } = &bb.terminator().kind else { continue };
                let Some((f, ga)) = self.callee(*i, func) else { continue };
                let p = self.tcx.def_path_str(f);
                let lock = p.ends_with("::lock") && p.contains("Mutex") || p.ends_with("::write") && p.contains("RwLock") || p.contains("mpsc") && p.ends_with("::send");
                let atomic = p.contains("sync::atomic") && ["fetch_", "swap", "compare_exchange", "store"].iter().any(|x| self.tcx.item_name(f).as_str().starts_with(x));
                if !lock && !atomic {
                    continue;
                }
                if !seen.insert((i.def_id(), p.clone())) {
                    continue;
                }
                // a guarded static is decided on its own
                let on_static = !self.statics_in(body).is_empty() && args.first().map(|a| !matches!(a.node, Operand::Constant(_))).unwrap_or(false);
                let guarded: Vec<String> = ga.types().map(|t| t.to_string()).collect();
                let order = ["Vec<", "VecDeque<", "Option<", "String"].iter().any(|x| guarded.iter().any(|g| g.contains(x))) && self.grows(*i) || p.contains("mpsc");
                let st = if lock && on_static {
                    St::Ok
                } else if lock && order && !sorted {
                    St::Violation
                } else if atomic && self.influence(body, &self.results_of(body, &|n| n == p)) == Reach::Result {
                    St::Violation
                } else {
                    St::Undecided
                };
                let pt = self.path(&w, *i);
                self.ob(&format!("{} state {} {}", key, self.tcx.def_path_str(i.def_id()), self.tcx.item_name(f)), site, "what is run in parallel leaves nothing behind in the order of its execution", st, if st == St::Ok { String::new() } else { format!("{} via {}", p, pt) });
            }
        }
        for (m, i) in w.unresolved.iter().take(1) {
            self.ob(&format!("{} calls", key), site, "every call of the parallel part is known", St::Undecided, format!("{} in {}", m, self.tcx.def_path_str(i.def_id())));
        }
        self.check(&format!("{} instances", key), site, "parallel closures are found and followed", !heads.is_empty() || n == 0, || format!("{} closures", heads.len()));
        Ok(())
    }
    /// while a lock is held, neither it nor the thread pool is asked for
    fn lock_case(&mut self, st: DefId, d: DefId, key: &str, site: &str) -> R<()> {
        let roots = self.instances(self.tcx.typeck_root_def_id(d))?;
        let w = self.walk(&roots);
        for i in w.order.iter().filter(|i| i.def_id() == d) {
            let Some(body) = self.body_of(*i) else { continue };
            let is_guard = |t: Ty<'tcx>| {
                let s = t.to_string();
                s.contains("MutexGuard<") || s.contains("RwLockReadGuard<") || s.contains("RwLockWriteGuard<")
            };
            let mut region: BTreeSet<mir::BasicBlock> = BTreeSet::new();
            let mut work: Vec<mir::BasicBlock> = vec![];
            for bb in body.basic_blocks.iter() {
                if let TerminatorKind::Call { func, target: Some(t), .. } = &bb.terminator().kind {
                    if let Some((f, _)) = self.callee(*i, func) {
                        let p = self.tcx.def_path_str(f);
                        if p.contains("Mutex") && p.ends_with("::lock") || p.contains("RwLock") && (p.ends_with("::write") || p.ends_with("::read")) {
                            work.push(*t);
                        }
                    }
                }
            }
            if work.is_empty() {
                continue;
            }
            let mut held: Vec<Instance<'tcx>> = vec![];
            let mut direct: Vec<String> = vec![];
            while let Some(b) = work.pop() {
                if !region.insert(b) {
                    continue;
                }
                let t = body.basic_blocks[b].terminator();
                for s in &body.basic_blocks[b].statements {
                    if let StatementKind::Assign(x) = &s.kind {
                        if let Rvalue::Aggregate(kd, _) = &x.1 {
                            if let mir::AggregateKind::Closure(d, ga) = **kd {
                                held.push(Instance { def: InstanceKind::Item(d), args: self.it.mono(*i, ga) });
                            }
                        }
                    }
                }
                match &t.kind {
                    TerminatorKind::Drop { place, target, .. } => {
                        let pt = place.ty(&body.local_decls, self.tcx).ty;
                        if !is_guard(pt) {
                            work.push(*target);
                        }
                    }
                    TerminatorKind::Call { func, args, target, .. } => {
                        if let Some((f, ga)) = self.callee(*i, func) {
                            let p = self.tcx.def_path_str(f);
                            if p.ends_with("mem::drop") && args.iter().any(|a| is_guard(a.node.ty(&body.local_decls, self.tcx))) {
                                continue;
                            }
                            if self.krate_of(f).starts_with("rayon") {
                                direct.push(p);
                            }
                            held.extend(self.enter(f, ga).unwrap_or_default());
                        }
                        if let Some(t) = target {
                            work.push(*t)
                        }
                    }
                    TerminatorKind::UnwindResume | TerminatorKind::Return | TerminatorKind::Unreachable => {}
                    k => work.extend(k_successors(k)),
                }
            }
            let w2 = self.walk(&held);
            let mut bad = direct.first().map(|p| format!("{} while the lock is held", p));
            for j in &w2.order {
                let Some(b) = self.body_of(*j) else { continue };
                if !self.user(j.def_id()) {
                    continue;
                }
                if self.statics_in(b).contains(&st) {
                    bad.get_or_insert(format!("the lock is taken again: {}", self.path(&w2, *j)));
                }
                for bb in b.basic_blocks.iter() {
                    if let TerminatorKind::Call { func, .. } = &bb.terminator().kind {
                        if let Some((f, _)) = self.callee(*j, func) {
                            if self.krate_of(f).starts_with("rayon") {
                                bad.get_or_insert(format!("the thread pool is entered, whose worker may ask for the lock again: {}", self.path(&w2, *j)));
                            }
                        }
                    }
                }
            }
            let a: Vec<String> = i.args.types().map(|t| t.to_string()).collect();
            self.check(&format!("{} {}", key, a.join(" ")), site, "while a lock is held, neither it nor the thread pool is asked for", bad.is_none(), || bad.unwrap_or_default());
        }
        Ok(())
    }
    fn check_pure(&mut self) -> R<()> {
        let tcx = self.tcx;
        let local = |s: &Self, d: DefId| s.user(d) && d.is_local();
        let mut roots: Vec<DefId> = vec![];
        let free = [
            "verify_proof", "verify_ipa", "rescue_hash_1_to_1", "rescue_hash_n_to_1", "rescue_hash_n_to_2", "rescue_hash_n_to_3", "rescue_sponge", "rescue_permutation", "generate_rescue_constants", "hash_u32_to_curve", "hash_usize_to_curve", "blake_field",
            "blake_hash_usize_to_curve", "blake_hash_base_field_to_curve", "hash_base_field_to_curve", "msm_precompute", "msm_parallel", "msm_execute", "msm_execute_parallel", "fft", "fft_precompute", "fft_with_precomputation", "ifft_with_precomputation_power_of_2",
            "fft_with_precomputation_power_of_2", "reduce_with_powers", "halo_n", "halo_n_mul", "halo_s", "halo_g", "eval_poly", "powers", "pedersen_hash", "permutation_polynomial", "sigma_polynomials", "mds_matrix", "apply_mds", "get_subgroup_shift", "build_halo_b",
            "evaluate_all_constraints", "evaluate_all_constraints_recursively", "values_to_polynomials", "polynomials_to_values_padded", "transpose", "verify", "open_all_polynomials", "eval_l_i", "affine_summation_best", "affine_multisummation_best",
        ];
        let plookup = self.krate_of(rustc_hir::def_id::CRATE_DEF_ID.to_def_id()) == "plookup";
        for f in free {
            // commits to the table, without blinding
            if plookup && f == "verify" {
                continue;
            }
            if let Ok(d) = self.find_fn(f) {
                if local(self, d) {
                    roots.push(d);
                }
            }
        }
        for (t, ms) in [
            ("Circuit", vec!["to_vk", "get_public_inputs", "vanishing_poly", "open_all_polynomials", "generate_copies"]),
            ("Proof", vec!["get_challenges", "all_opening_sets"]),
            ("PlookupProof", vec!["get_challenges", "all_opening_sets"]),
            ("OldProof", vec!["evaluate_g", "coeffs"]),
            ("Polynomial", vec!["eval", "mul", "add", "polynomial_division", "divide_by_z_h", "from_evaluations"]),
            ("TargetPartitions", vec!["merge", "add_partition", "to_wire_partitions"]),
            ("WirePartitions", vec!["to_sigma"]),
            ("Witness", vec!["from_partial", "transpose"]),
            ("Table", vec!["to_vec"]),
            ("ProjectivePoint", vec!["to_affine", "batch_to_affine", "double"]),
            ("AffinePoint", vec!["double", "to_projective", "batch_to_projective"]),
        ] {
            for m in ms {
                if let Ok(d) = self.method(t, m) {
                    if local(self, d) {
                        roots.push(d);
                    }
                }
            }
        }
        for d in self.methods_of("Challenger") {
            if local(self, d) {
                roots.push(d);
            }
        }
        // conversions to and from bytes, operators, comparisons
        for i in tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).filter(|d| matches!(tcx.def_kind(*d), DefKind::Impl { of_trait: true })) {
            let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            let tn = tcx.item_name(tr.def_id).to_string();
            if !matches!(tn.as_str(), "Add" | "Sub" | "Mul" | "Div" | "Neg" | "PartialEq" | "PartialOrd" | "Ord" | "Hash" | "ToBytes" | "FromBytes" | "Serialize" | "Deserialize" | "Clone" | "From" | "Gate") {
                continue;
            }
            for m in tcx.associated_item_def_ids(i) {
                if tcx.def_kind(*m) == DefKind::AssocFn {
                    roots.push(*m);
                }
            }
        }
        let anchors = if self.krate_of(rustc_hir::def_id::CRATE_DEF_ID.to_def_id()) == "plonky" { 60 } else { 3 };
        self.ob("deterministic functions", "crate", "functions that have to be deterministic are found", if roots.len() >= anchors { St::Ok } else { St::Undecided }, format!("{} functions", roots.len()));
        for d in roots {
            let Ok(is) = self.instances(d) else { continue };
            if is.iter().any(|i| self.body_of(*i).is_none()) {
                continue;
            }
            let key = format!("pure {}", self.site(d));
            let site = self.site(d);
            self.unit(&key.clone(), &site.clone(), |s| {
                let w = s.walk(&is);
                let mut bad: Option<(St, String)> = None;
                for i in &w.order {
                    let p = s.tcx.def_path_str(i.def_id());
                    let nm = s.tcx.opt_item_name(i.def_id()).map(|x| x.to_string()).unwrap_or_default();
                    let k = s.krate_of(i.def_id());
                    let asked = w.from[i].map(|x| s.user(x.def_id())).unwrap_or(false);
                    let entropy = k == "getrandom" || (k.starts_with("rand") && (matches!(nm.as_str(), "thread_rng" | "random" | "from_entropy") || p.contains("OsRng") || p.contains("ThreadRng") || p.contains("EntropyRng"))) || (asked && (p.starts_with("std::env::") || p.contains("std::process::id") || p.starts_with("std::thread::current") || p.contains("RandomState") && nm == "build_hasher"));
                    if entropy && bad.is_none() {
                        // a function with a switch may be asked not to draw
                        let st = if s.walk_past(&is, true).from.contains_key(i) { St::Violation } else { St::Undecided };
                        bad = Some((st, format!("{} via {}", p, s.path(&w, w.from[i].unwrap_or(*i)))));
                    }
                    if s.user(i.def_id()) {
                        if let Some(body) = s.body_of(*i) {
                            let clock = s.results_of(body, &|n| (n.contains("Instant") || n.contains("SystemTime")) && n.ends_with("::now"));
                            if !clock.is_empty() {
                                match s.influence(body, &clock) {
                                    Reach::Result => {
                                        bad.get_or_insert((St::Violation, format!("the clock reaches the result of {}", s.path(&w, *i))));
                                    }
                                    Reach::Control => {
                                        bad.get_or_insert((St::Undecided, format!("the clock decides a branch of {}", s.path(&w, *i))));
                                    }
                                    Reach::Nothing => {}
                                }
                            }
                        }
                    }
                }
                let n = w.order.len();
                match bad {
                    None => s.ob(&key, &site, "the result depends on the arguments only: no entropy, clock or environment is consulted", St::Ok, String::new()),
                    Some((st, m)) => s.ob(&key, &site, "the result depends on the arguments only: no entropy, clock or environment is consulted", st, format!("{} ({} functions followed)", m, n)),
                }
                Ok(())
            });
        }
        Ok(())
    }

    /// results do not depend on earlier calls
    pub fn check_history(&mut self) -> R<()> {
        self.scoped(|s| s.check_history_())
    }
    fn check_history_(&mut self) -> R<()> {
        let fields = self.all_fields()?;
        type Call<'tcx> = (String, DefId, Ty<'tcx>, Vec<V<'tcx>>);
        let mut calls: Vec<Call<'tcx>> = vec![];
        for n in [3usize, 4, 2, 5] {
            for &t in &fields {
                if let Ok(d) = self.find_fn("mds_matrix") {
                    calls.push((format!("mds_matrix {} {}", self.it.head(t), n), d, t, vec![V::Int(n as u128)]));
                }
            }
        }
        for (w, bits) in [(4u128, 128u128), (4, 80), (3, 128)] {
            for &t in fields.iter() {
                if let Ok(d) = self.find_fn("generate_rescue_constants") {
                    calls.push((format!("generate_rescue_constants {} {} {}", self.it.head(t), w, bits), d, t, vec![V::Int(w), V::Int(bits)]));
                }
            }
        }
        for i in [0usize, 1, 5] {
            for &t in &fields {
                if let Ok(d) = self.find_fn("get_subgroup_shift") {
                    calls.push((format!("get_subgroup_shift {} {}", self.it.head(t), i), d, t, vec![V::Int(i as u128)]));
                }
            }
        }
        for n in [4usize, 8, 2, 16] {
            for &t in &fields {
                if let Ok(d) = self.find_fn("fft_precompute") {
                    calls.push((format!("fft_precompute {} {}", self.it.head(t), n), d, t, vec![V::Int(n as u128)]));
                }
            }
        }
        self.build_orders()?;
        let site = {
            let d = self.find_fn("mds_matrix")?;
            self.site(d)
        };
        // in one process: the calls of all types, interleaved; then each alone
        for (r, rev) in [(0usize, false), (1, true)] {
            let cs: Vec<Call<'tcx>> = if rev { calls.iter().rev().cloned().collect() } else { calls.clone() };
            self.unit(&format!("histories {}", r), &site.clone(), |s| {
                let mut after = vec![];
                s.it.statics.clear();
                for (k, d, t, a) in &cs {
                    let ga = s.tcx.mk_args(&[(*t).into()]);
                    match s.call(*d, ga, a.clone()) {
                        Ok(v) => {
                            let x = s.it.vkey(&v);
                            after.push(Some(x))
                        }
                        Err(Stop::Unsupported(m)) => return unsup(format!("{}: {}", k, m)),
                        Err(_) => after.push(None),
                    }
                }
                for ((k, d, t, a), x) in cs.iter().zip(after) {
                    s.it.statics.clear();
                    let ga = s.tcx.mk_args(&[(*t).into()]);
                    let y = match s.call(*d, ga, a.clone()) {
                        Ok(v) => Some(s.it.vkey(&v)),
                        Err(Stop::Unsupported(m)) => return unsup(format!("{}: {}", k, m)),
                        Err(_) => None,
                    };
                    let site = s.site(*d);
                    s.check(&format!("{} {}", k, if rev { "after later calls" } else { "after earlier calls" }), &site, "a result does not depend on what was computed before it", x == y, || format!("{} instead of {}", x.map(|t| show_d(t, 3)).unwrap_or_default(), y.map(|t| show_d(t, 3)).unwrap_or_default()));
                }
                Ok(())
            });
        }
        Ok(())
    }
    /// circuits do not depend on the order in which hash tables are traversed, nor on circuits built before
    fn build_orders(&mut self) -> R<()> {
        let base = self.it.hooks.clone();
        let site = {
            let d = self.method("CircuitBuilder", "build")?;
            self.site(d)
        };
        for (ci, (c, inner)) in self.curve_pairs()?.into_iter().enumerate() {
            let k = self.snark(c, inner)?;
            for prog in 0..crate::constr::NPI.len() {
                if ci > 0 && prog > 3 {
                    continue;
                }
                self.it.hooks = base.clone();
                self.hook_protocol(k.pd)?;
                let key = format!("{} program {}", k.name, prog);
                let (k, site) = (&k, site.clone());
                self.unit(&key.clone(), &site.clone(), |s| {
                    let r = s.orders_case(k, prog, &key, &site);
                    set_map_order(0);
                    r
                });
            }
        }
        Ok(())
    }
    fn orders_case(&mut self, k: &crate::proto::Snark<'tcx>, prog: usize, key: &str, site: &str) -> R<()> {
        let mut first: Option<Vec<(String, TermId)>> = None;
        for (o, what) in [(0u8, "built first"), (1, "with hash tables in reverse"), (2, "with hash tables scrambled"), (0, "built again")] {
            set_map_order(o);
            let b = self.new_builder(k.c)?;
            self.build_program(k, &b, prog)?;
            let bv = self.it.deref_all(&b)?;
            let cv = self.call_m("CircuitBuilder", "build", &[k.c], vec![bv])?;
            let V::Adt(a) = &cv else { return unsup("circuit") };
            let ty::Adt(d, _) = a.ty.kind() else { return unsup("circuit") };
            let mut got = vec![];
            for (fd, v) in d.non_enum_variant().fields.iter().zip(&a.f) {
                let t = self.it.vkey(v);
                got.push((fd.name.to_string(), t));
            }
            for (nm, t) in &got {
                let mut s = BTreeSet::new();
                deep_term(*t, &mut s);
                let r = s.iter().find(|x| matches!(term(**x), Term::Name(_)) && show_d(**x, 1).starts_with("rand"));
                self.check(&format!("{} {} {} entropy", key, what, nm), site, "a circuit contains nothing drawn at random", r.is_none(), || r.map(|t| show_d(*t, 1)).unwrap_or_default());
            }
            match &first {
                None => first = Some(got),
                Some(f) => {
                    for ((nm, x), (_, y)) in f.iter().zip(&got) {
                        self.check(&format!("{} {} {}", key, what, nm), site, "equal programs yield equal circuits", x == y, || format!("{} and {}", show_d(*x, 3), show_d(*y, 3)));
                    }
                }
            }
        }
        Ok(())
    }
}

fn k_successors(k: &TerminatorKind<'_>) -> Vec<mir::BasicBlock> {
    k.successors().collect()
}
