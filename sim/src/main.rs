//! Deterministic simulation of divans. See /verif/DESIGN.md.

mod alloc;
#[cfg(feature = "builds")]
mod builds;
mod choice;
mod drive;
mod entry;
mod gen;
mod model;
mod note;
mod panics;
mod parent;
mod props;
mod run;
mod sched;

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}

fn main() {
    // one arena that never shrinks: fresh pages are what a run would mostly pay for
    unsafe {
        mallopt(-8, 1);
        mallopt(-3, 0x3fff_ffff);
        mallopt(-1, 0x7fff_ffff);
        mallopt(-2, 64 << 20);
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => parent::check(&args[1..]),
        Some("worker") => run::worker(&args[1..]),
        Some("replay") => run::replay_cmd(&args[1..]),
        Some("seed") => run::seed_cmd(&args[1..]),
        Some("twice") => run::twice_cmd(&args[1..]),
        Some("corpus") => props::golden::make(&args[1..]),
        Some("list") => {
            for p in props::ALL {
                println!("{} {} runs quick, {} thorough", p.id, p.quick, p.thorough);
            }
            0
        },
        _ => {
            eprintln!("usage: divsim check --prop ID [--tier quick|thorough] | replay FILE | seed PROP N | twice PROP N | list");
            2
        },
    };
    std::process::exit(code);
}
