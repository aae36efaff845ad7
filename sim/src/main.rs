//! Deterministic simulation of Series2Graph++: see DESIGN.md.
mod driver;
mod model;
mod props;
mod run;
mod scenario;
mod seam;

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let g = |i: usize| args[i].parse::<u64>().expect("number");
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => driver::worker(&args[2], g(3), g(4), g(5), args[6].parse().unwrap(), g(7)),
        Some("one") => driver::one(&args[2], g(3), g(4)),
        Some("minimise") => driver::minimise_cmd(&args[2], g(3), g(4), args[5].parse().unwrap(), &args[6]),
        Some("replay") => std::process::exit(driver::replay(&args[2])),
        Some("dump") => driver::dump(&args[2]),
        Some("check") => {
            // check PROP SEED TIER SECONDS EVIDENCE REPLAY_DIR
            let o = driver::Opts {
                prop: args[2].clone(),
                seed: g(3),
                tier: args[4].clone(),
                secs: args[5].parse().unwrap(),
                workers: std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(2, 16),
                evidence: args[6].clone(),
                replay_dir: args[7].clone(),
            };
            assert!(props::ALL.contains(&o.prop.as_str()), "unknown property {}", o.prop);
            std::process::exit(driver::check(&o));
        }
        _ => {
            eprintln!("usage: s2sim check|replay|one|minimise|worker ...");
            std::process::exit(2);
        }
    }
}
