//! clisim: deterministic simulation of the jxl-rs command-line decoder.
//!
//! Every simulated execution is the tool's own main() in a process whose file
//! system calls, clock, entropy and thread pool are simulated (see os.rs and
//! shim/rayon).
//!
//!   clisim check <P18|P19> [--tier quick|thorough] [--seed N] [--survey]
//!   clisim replay <file>
//!   clisim run <property> <run>

#![allow(dead_code)]

mod alloc;
mod child;
mod cli;
#[path = "../../sim/src/genfile.rs"]
mod genfile;
mod judge;
mod os;
mod parent;
mod plan;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/sched.rs"]
mod sched;

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    if std::env::var_os("CLISIM_CHILD").is_some() {
        child::main();
    }
    let a: Vec<String> = std::env::args().collect();
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = arg("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    let r = match a.get(1).map(|s| s.as_str()) {
        Some("check") => parent::check(&a[2], &tier, seed, a.iter().any(|x| x == "--survey")),
        Some("replay") => parent::replay(&a[2]),
        Some("run") => {
            let p = plan::generate(&a[2], seed, a[3].parse().unwrap());
            println!("{}", serde_json::to_string(&p).unwrap());
            let j = judge::judge(&p, &mut judge::Cache::default());
            println!("{:?}\n{:#?}", j.found, j.counts);
            0
        }
        _ => 2,
    };
    std::process::exit(r);
}
