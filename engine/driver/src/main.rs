#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            facts::dump(tcx, out);
            tcx.dcx().abort_if_errors();
            return Compilation::Stop;
        }
        Compilation::Continue
    }
}

fn main() {
    // invoked as: facts-driver <rustc> <args...>   (RUSTC_WORKSPACE_WRAPPER)
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut crate_name = None;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            crate_name = Some(args[i + 1].clone());
        }
        i += 1;
    }
    let mut out = None;
    if let (Some(c), Ok(dir)) = (&crate_name, std::env::var("FACTS_OUT")) {
        let wanted = std::env::var("FACTS_CRATES").unwrap_or_default();
        if wanted.split(',').any(|w| w == c) && !args.iter().any(|a| a == "--print" || a == "-vV") {
            out = Some(format!("{dir}/{c}.json"));
        }
    }
    let mir_crates = std::env::var("FACTS_MIR").unwrap_or_default();
    if crate_name.as_ref().is_some_and(|c| mir_crates.split(',').any(|w| w == c)) {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zthreads=8".into());
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
