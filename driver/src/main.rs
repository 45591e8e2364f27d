#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

mod dump;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            dump::dump(tcx, &format!("{out}/{name}.json"));
        }
        Compilation::Continue
    }
}

fn main() {
    // invoked as RUSTC_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dump = krate.map_or(false, |k| want.split(',').any(|w| w == k)) && !args.iter().any(|a| a.starts_with("--print"));
    if dump {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct No;
        impl rustc_driver::Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
