//! rustc driver: prints the type-checked bodies (THIR) of the functions of the
//! crate being compiled as Verus source text, one JSON object per function.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod body;
mod names;

use rustc_middle::ty::TyCtxt;

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        if let Ok(out) = std::env::var("XTRACT_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            if name.as_str() == std::env::var("XTRACT_CRATE").unwrap_or_default() {
                let js = names::run(tcx);
                std::fs::write(&out, js).expect("write");
            }
        }
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argument 1.
    if a.len() > 1 && (a[1].ends_with("rustc")) {
        a.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&a, &mut Cb);
}
