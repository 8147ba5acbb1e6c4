#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_feature;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod base;
mod checks;
mod circ;
mod curve;
mod pdom;
mod trans;
mod proto;
mod constr;
mod wit;
mod zdom;
mod limbs;
mod fieldops;
mod serial;
mod htc;
mod plk;
mod bigint;
mod effects;
mod recur;
mod msm;
mod polyr;
mod consts;
mod gadgets;
mod gates;
mod interp;
mod model;
mod poly;
mod val;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_crate_root_parsing(&mut self, _c: &interface::Compiler, krate: &mut rustc_ast::Crate) -> Compilation {
        // `const_generics` was stabilised (min_const_generics) and its feature gate removed; the crate
        // only uses the stable part.
        krate.attrs.retain(|a| {
            if a.has_name(rustc_span::sym::feature) {
                if let Some(l) = a.meta_item_list() {
                    return !l.iter().any(|m| m.name().map(|n| n.as_str() == "const_generics").unwrap_or(false));
                }
            }
            true
        });
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        checks::run(tcx);
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    rustc_driver::catch_with_exit_code(|| {
        if krate == "plonky" || krate == "plookup" {
            rustc_driver::compiler_entrypoint(&args, &mut Cb)
        } else {
            struct Nop;
            impl rustc_driver::Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        }
    })
}
