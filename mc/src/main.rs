mod checks;
mod comp;
mod hw;
mod lang;
mod pipe;
mod probes;
mod report;
mod sched_glue;
mod sim;
mod seq;
mod vlog;
mod word;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => comp::worker_main(&args[2]),
        Some("check") => {
            let tier = match args.get(3).map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) {
                Some("thorough") => report::Tier::Thorough,
                _ => report::Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(checks::run(&args[2], tier, seed));
        }
        Some("replay") => std::process::exit(checks::replay(&args[2])),
        // compile one file and simulate its `top` on given inputs: debugging aid
        Some("try") => std::process::exit(checks::try_file(&args[2..])),
        _ => {
            eprintln!("usage: spade-mc check ID [quick|thorough] | replay FILE | try FILE");
            std::process::exit(2);
        }
    }
}
