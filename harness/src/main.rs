//! drv <what> <property> <case file> [options]: replays cases in the real code.
use harness::run::{quiet_panics, run_cases, summary};

fn main() {
    quiet_panics();
    // under the name of a solver this is a stand-in for it
    let me = std::env::args().next().unwrap_or_default();
    let me = me.rsplit('/').next().unwrap();
    if me == "cbc" || me == "clp" { std::process::exit(harness::cmd::program(me)); }
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "child" { harness::cmd::child(&a[2..]); return; }
    let threads = std::env::var("DRV_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let ctx = match a[1].as_str() {
        "expr" => run_cases(&a[3], &a[2], threads, harness::expr::check),
        "model" => run_cases(&a[3], &a[2], threads, harness::model::check),
        "viol" => run_cases(&a[3], &a[2], threads, harness::viol::check),
        "lp" => run_cases(&a[3], &a[2], threads, harness::lp::check),
        "solve" => run_cases(&a[3], &a[2], threads, harness::solve::check),
        "solfile" => run_cases(&a[3], &a[2], threads, harness::solfile::check),
        "cmd" => run_cases(&a[3], &a[2], 1, harness::cmd::check),
        "opt" => run_cases(&a[3], &a[2], 1, harness::opt::check),
        "kkt" => run_cases(&a[3], &a[2], 1, harness::opt::kkt),
        "views" => run_cases(&a[3], &a[2], threads, harness::views::check),
        "sparse" => run_cases(&a[3], &a[2], threads, harness::sparse::check),
        x => panic!("unknown driver {}", x),
    };
    if let Ok(f) = std::env::var("RECORDS") {
        use std::io::Write;
        let mut w = std::io::BufWriter::new(std::fs::File::create(f).expect("records file"));
        for r in ctx.records.iter() { writeln!(w, "{}", r).unwrap(); }
    }
    println!("{}", summary(&ctx));
}
