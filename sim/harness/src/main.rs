mod batch;
mod disk;
mod eval;
mod gen;
mod gen_scale;
mod gen_term;
mod hooks;
mod interpose;
mod judge;
mod minim;
mod model;
mod plan;
mod rng;
mod run;
mod term;
mod user;
mod vfs;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |k: usize| args.get(k).cloned().unwrap_or_default();
    let n = |k: usize| args.get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let code = match a(0).as_str() {
        // check <property> <quick|thorough> <seed> <evidence> <replays> [runs] [seconds] [jobs]
        "check" => batch::check(&a(1), &a(2), n(3), &a(4), &a(5), n(6), n(7), n(8)),
        // worker <property> <seed> <first> <step> <runs> <seconds>
        "worker" => batch::worker(&a(1), n(2), n(3), n(4), n(5), n(6)),
        "minimize" => batch::minimize(&a(1), &a(2), n(3)),
        "replay" => batch::replay(&a(1), a(2) == "quiet"),
        // one <property> <seed> <index>
        "one" => batch::one(&a(1), n(2), n(3)),
        // hashes <property> <seed> <first> <count>
        "hashes" => batch::hashes(&a(1), n(2), n(3), n(4)),
        _ => {
            eprintln!("usage: bcalcsim check|worker|minimize|replay|one|hashes ...");
            2
        }
    };
    std::process::exit(code);
}
