//! rustc wrapper that dumps the resolved MIR of the analysed crates as JSON.
//!
//! Invoked by cargo as RUSTC_WRAPPER: argv[1] is the real rustc.  For crates whose name is listed
//! in PLV_CRATES every function body (and every instance reachable from it, within the modules
//! accepted by `wanted`) is written to $PLV_OUT/<crate>-<kind>.json after type analysis.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use std::os::unix::process::CommandExt;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Dump;

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }

    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx);
        Compilation::Continue
    }
}

fn main() {
    // argv[0] = this wrapper, argv[1] = the real rustc, then its arguments
    let args: Vec<String> = std::env::args().skip(1).collect();
    let crates = std::env::var("PLV_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    if !crates.split(',').any(|c| c == name) {
        let err = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        panic!("cannot run {}: {err}", args[0]);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Dump)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
