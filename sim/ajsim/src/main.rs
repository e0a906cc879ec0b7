mod backend;
mod be;
mod gen;
mod hist;
mod jobs;
mod known;
mod mini;
mod oracle;
mod plan;
mod redis_sim;
mod run;
mod search;
mod world;

fn arg(name: &str) -> Option<String> {
    let mut a = std::env::args();
    while let Some(x) = a.next() {
        if x == name {
            return a.next();
        }
    }
    None
}
fn num(name: &str, default: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        // search for a violation of a property
        "check" => search::check(&args[2], num("--runs", 1000), num("--secs", 60), num("--seed", 1), num("--workers", 8) as usize, arg("--out"), arg("--tier").unwrap_or("quick".into())),
        "known" => {
            known::report(&args[2]);
            0
        }
        "replay" => search::replay(&args[2]),
        // one seed, written out
        "run" => search::show(&args[2], args[3].parse().expect("seed"), args.iter().any(|a| a == "--plan"), args.iter().any(|a| a == "--min")),
        "determinism" => search::determinism(&args[2], num("--from", 1), num("--runs", 200)),
        _ => {
            eprintln!("usage: ajsim check|replay|run|determinism ...");
            2
        }
    };
    std::process::exit(code);
}
