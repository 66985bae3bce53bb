mod corrupt;
mod driver;
mod exec;
mod fixture;
mod gen;
mod lineage;
mod minimize;
mod mirror;
mod mkfix;
mod model;
mod plan;
mod player;
mod raw;

fn main() {
    // Stack traces are not kept: collecting them takes half of the time.
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => driver::worker(&a[1..]),
        Some("check") => driver::check(&a[1..]),
        Some("replay") => driver::replay(&a[1..]),
        Some("minimize") => driver::minimize_file(&a[1..]),
        Some("shows") => driver::shows_file(&a[1..]),
        Some("one") => driver::one(&a[1..]),
        Some("probe") => driver::probe(&a[1..]),
        Some("hashes") => driver::hashes(&a[1..]),
        Some("hunt") => driver::hunt(&a[1..]),
        Some("mkfix") => mkfix::main(&a[1..]),
        _ => { eprintln!("usage: klavier-sim check ID TIER | replay FILE | one PROFILE SEED"); 2 }
    };
    std::process::exit(code);
}
