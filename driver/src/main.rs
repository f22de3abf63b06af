//! rustc driver: dumps the type-checked program of `mixed_num` (MIR with resolved callees, impl table,
//! ADT layouts) as JSON. Used as RUSTC_WRAPPER: argv = [driver, rustc, args...].
//! For every crate but the target it behaves exactly like rustc (it execs it).
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        // MIR as written: no optimisation passes reshaping the program before we read it.
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("MN_DUMP").expect("MN_DUMP");
        let s = dump::dump(tcx);
        let tmp = format!("{out}.tmp.{}", std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &out).expect("rename dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER passes the real rustc as argv[1].
    let real = if args.len() > 1 { args.remove(1) } else { "rustc".into() };
    let target = std::env::var("MN_CRATE").unwrap_or_else(|_| "mixed_num".into());
    let mut is_target = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == target { is_target = true; }
    }
    if !is_target || std::env::var("MN_DUMP").is_err() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(real).args(&args[1..]).exec();
        eprintln!("exec failed: {e}");
        std::process::exit(101);
    }
    args[0] = real;
    if !args.iter().any(|a| a == "--sysroot") {
        if let Ok(s) = std::env::var("MN_SYSROOT") {
            args.push("--sysroot".into());
            args.push(s);
        }
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
