#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod cfg;
mod deep;
mod loopinv;
mod dom;
mod exec;
mod interp;
mod ir;
mod lower;
mod mem;
mod pool;
mod poly;
mod props;
mod spec;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == "fxd_harness" {
            if let Ok(id) = std::env::var("ABS_PROP") {
                let rc = props::main(tcx, &id);
                std::process::exit(rc);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |x| x == "rustc") {
        args.remove(0);
    }
    rustc_driver::install_ice_hook("https://localhost", |_| ());
    std::process::exit(if rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb)) == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
