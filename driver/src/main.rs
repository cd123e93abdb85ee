//! MIR dumper: a rustc driver that behaves exactly like rustc, and for the
//! crates named in MIRDUMP_CRATES additionally writes the analysed program
//! (types resolved, callees resolved, constants evaluated) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    active: bool,
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.active {
            config.override_queries = Some(|_sess, providers| {
                dump::install(providers);
            });
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.active {
            let text = dump::dump_crate(tcx);
            let tmp = format!("{}.tmp{}", self.out, std::process::id());
            std::fs::write(&tmp, text).expect("write dump");
            std::fs::rename(&tmp, &self.out).expect("rename dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let ctype = args
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let active = !dir.is_empty() && !is_test && want.split(',').any(|w| w == name);
    let out = format!("{dir}/{name}.{ctype}.json");
    let mut cb = Cb { active, out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
