//! Runtime monitors for linesweeper. See /verif/DESIGN.md.
mod budget;
mod checks;
mod arr;
mod common;
mod crash;
mod digest;
mod driver;
mod explore;
mod gen;
mod oracle;
mod pairs;
mod report;
mod rng;
mod run;
mod sample;
mod shrink;
mod trace;

#[global_allocator]
static A: budget::Counting = budget::Counting;

fn main() {
    run::install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => crash::watch(&args[2..]),
        Some("digest") => digest::main(&args[2..]),
        Some("tool") => explore::main(&args[2..]),
        _ => {
            eprintln!("usage: lsmon check <ID> [--seed N] [--thorough] [--case I] | lsmon tool ...");
            std::process::exit(2)
        }
    }
}
