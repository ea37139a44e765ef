//! jxlsim: deterministic simulation of the jxl decoder with fault injection.
//!
//!   jxlsim check <property> [--tier quick|thorough] [--seed N] [--survey]
//!   jxlsim replay <file>
//!   jxlsim plan <property> <run> [--tier T] [--seed N]      print a run's plan
//!   jxlsim one <plan file>                                   judge one plan

mod alloc;
mod corpus;
mod drive;
mod exec;
mod genfile;
mod judge;
mod minimise;
mod parent;
mod plan;
mod rng;
mod runner;
mod scen;
mod sched;
mod sim;
mod source;
mod zygote;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

use scen::Tier;
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn flag(name: &str) -> bool {
    std::env::args().any(|x| x == name)
}

fn tier() -> Tier {
    match arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    arg("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|x| x.parse().ok())
        .unwrap_or(1)
}

fn say(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

fn worker() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[2].as_str();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (k, of, total, secs) = (n(3), n(4), n(5), n(6));
    let (tier, seed) = (tier(), seed());
    let start = Instant::now();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut scen: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces = std::collections::BTreeSet::new();
    let mut states = std::collections::BTreeSet::new();
    let mut plans = std::collections::BTreeSet::new();
    let mut samples = vec![];
    let mut runs = 0u64;
    let mut i = k;
    let mut reported = 0;
    while i < total {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        say(&format!("B {i}"));
        let p = scen::generate(prop, seed, i, tier);
        let rep = judge::check(&p);
        runs += 1;
        *scen.entry(p.scenario.clone()).or_default() += 1;
        let text = serde_json::to_string(&p).unwrap();
        plans.insert(rng::hash_bytes(0, text.as_bytes()));
        if samples.len() < 2 && (i / of) % 7 == 3 {
            let mut t = text.clone();
            t.truncate(600);
            samples.push(t);
        }
        for (n, c) in &rep.counts {
            *counts.entry(n.clone()).or_default() += c;
        }
        if traces.len() < 200_000 {
            traces.extend(rep.traces.iter().copied());
        }
        if states.len() < 200_000 {
            states.extend(rep.states.iter().copied());
        }
        if (i / of) % 20 == 0 {
            // The same plan must give the same execution again.
            let again = judge::check(&p);
            *counts.entry("executed_twice".into()).or_default() += 1;
            if again.log != rep.log {
                say(&format!(
                    "V {}",
                    serde_json::json!({"run": i, "class": "nondeterministic",
                        "msg": "two executions of the same plan (same files, calls, schedule, faults) differ", "plan": p})
                ));
            }
        }
        if let Some(f) = rep.found.first()
            && reported < 40
        {
            reported += 1;
            say(&format!(
                "V {}",
                serde_json::json!({"run": i, "class": f.class, "msg": f.msg, "plan": p})
            ));
        }
        i += of;
    }
    let hex = |s: &std::collections::BTreeSet<u64>| {
        s.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")
    };
    say(&format!("T {}", hex(&traces)));
    say(&format!("S {}", hex(&states)));
    say(&format!("P {}", hex(&plans)));
    say(&format!(
        "E {}",
        serde_json::json!({"runs": runs, "counts": counts, "scenarios": scen, "samples": samples,
            "complete": i >= total})
    ));
}

fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == "P15" || x == "one") {
        zygote::start();
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(),
        Some("check") => std::process::exit(parent::check(&a[2], tier(), seed(), flag("--survey"))),
        Some("replay") => std::process::exit(parent::replay(&a[2])),
        Some("plan") => {
            let p = scen::generate(&a[2], seed(), a[3].parse().unwrap(), tier());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
        }
        Some("run") => {
            let p = scen::generate(&a[2], seed(), a[3].parse().unwrap(), tier());
            let rep = judge::check(&p);
            println!("{:?} {:#?}", rep.found, rep.counts);
        }
        Some("min") => {
            let p = scen::generate(&a[2], seed(), a[3].parse().unwrap(), tier());
            let j = minimise::judge(&p, Duration::from_secs(120));
            println!("{:?} {}", j.class, j.msg);
            if let Some(c) = j.class {
                let (p, n) = minimise::minimise(&p, &c, Duration::from_secs(30));
                println!("{n} tries");
                let t = serde_json::to_string(&p).unwrap();
                std::fs::write("/tmp/min.json", &t).unwrap();
                println!("{t}");
                let j = minimise::judge(&p, Duration::from_secs(120));
                println!("{:?} {}", j.class, j.msg);
            }
        }
        Some("gencheck") => {
            // Which generated files decode.
            let mut errs = std::collections::BTreeMap::<String, (u32, u64)>::new();
            let n = a[2].parse::<u64>().unwrap();
            let from = a.get(3).map_or(0, |x| x.parse().unwrap());
            for s in from..n {
                let mut f = genfile::random(s, genfile::Want::Any);
                genfile::add_effects(&mut f, s);
                genfile::add_parts(&mut f, s, true);
                let mut p = plan::Plan::plain("P01", plan::FileSpec::Gen(f));
                p.opts.skip_preview = s % 3 == 0;
                let o = sim::run(&p, false, false);
                let e = errs.entry(format!("{:?}", o.out.end)).or_insert((0, s));
                e.0 += 1;
            }
            println!("{errs:#?}");
        }
        Some("dump") => {
            // The file of a plan or replay file, as the decoder sees it.
            let t = std::fs::read_to_string(&a[2]).expect("cannot read the plan");
            let v: serde_json::Value = serde_json::from_str(&t).expect("not JSON");
            let p: plan::Plan =
                serde_json::from_value(v.get("plan").cloned().unwrap_or(v)).expect("bad plan");
            std::fs::write(&a[3], corpus::plan_bytes(&p).as_slice()).expect("cannot write");
        }
        Some("one") => {
            let t = std::fs::read_to_string(&a[2]).expect("cannot read the plan");
            let p: plan::Plan = serde_json::from_str(&t).expect("bad plan");
            let rep = judge::check(&p);
            println!(
                "R {}",
                serde_json::json!({"found": rep.found, "log": rep.log, "forced": rep.forced})
            );
        }
        _ => {
            eprintln!("usage: jxlsim check|replay|plan|one ...");
            std::process::exit(2);
        }
    }
}
