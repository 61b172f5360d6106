#![feature(rustc_private)]
#![allow(clippy::too_many_arguments)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_parse;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

/// Appends to the debug log.
#[macro_export]
macro_rules! dlog {
    ($($t:tt)*) => {
        if let Some(p) = std::env::var_os("KULV_DEBUG") {
            use std::io::Write;
            let f = std::fs::OpenOptions::new().append(true).create(true).open(p);
            if let Ok(mut f) = f {
                let _ = writeln!(f, $($t)*);
            }
        }
    };
}

mod body;
mod engine;
mod facts;
mod models;
mod report;
mod sets;
mod slices;
mod state;
mod strings;
mod survey;
mod targets;
mod val;
mod widen;

use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a workspace wrapper: driver <rustc> <args>
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    if std::env::var_os("KULV_SURVEY").is_some()
        && matches!(name.as_deref(), Some("kul" | "kul_core" | "kulv_probe"))
    {
        args.remove(1);
        let ok = run_with_tcx!(&args, survey::survey).is_ok();
        std::process::exit(!ok as i32);
    }
    if name.as_deref() != Some("kulv_subject") || std::env::var_os("KULV_SURVEY").is_some() {
        // Anything else is left to the real compiler.
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status();
        std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(1));
    }
    args.remove(1);
    let code = match run!(&args, analyse) {
        Ok(_) => 0,
        Err(_) => 1,
    };
    std::process::exit(code);
}

fn analyse() -> ControlFlow<(), ()> {
    let which = std::env::var("KULV_TARGETS").unwrap_or_default();
    let out = std::env::var("KULV_OUT").expect("KULV_OUT");
    let mut done = vec![];
    for t in which.split(',').filter(|t| !t.is_empty()) {
        let t0 = std::time::Instant::now();
        for d in targets::run(t) {
            eprintln!(
                "{}: {} states, {} steps, {} paths, {} violations, {} unknowns, {:.1}s",
                d.name,
                d.rep.states,
                d.rep.steps,
                d.rep.paths,
                d.rep.violations.len(),
                d.rep.unknowns.len(),
                t0.elapsed().as_secs_f32()
            );
            done.push(d);
        }
    }
    std::fs::write(out, report::json(&done)).unwrap();
    ControlFlow::Continue(())
}
