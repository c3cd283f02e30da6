#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! Deterministic simulation of numopt and the solvers around it.

mod arena;
mod child;
mod cmd;
mod evalw;
mod expr;
mod interpose;
mod ipeer;
mod lp;
mod modelw;
mod parent;
mod sim;
mod statics;
mod tape;
mod truth;
mod worker;

#[global_allocator]
static GLOBAL: arena::Alloc = arena::Alloc;

fn main() {
    worker::install_hook();
    arena::map();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => parent::check(&a[2..]),
        Some("worker") => worker::worker(&a[2..]),
        Some("shrink") => worker::shrink(&a[2..]),
        Some("replay") => parent::replay(&a[2..]),
        Some("tape") => parent::run_tape(&a[2..]),
        Some("one") => parent::one(&a[2..]),
        Some("digests") => parent::digests(&a[2..]),
        Some("statics") => {
            for n in statics::names() {
                println!("{}", n);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|one|digests ...");
            2
        }
    };
    std::process::exit(code);
}
