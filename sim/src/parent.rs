//! Runs one property's check: starts the workers, collects what they report,
//! minimises violations into replay files and writes the evidence.

use crate::minimise::{judge, minimise};
use crate::plan::Plan;
use crate::scen::{self, Tier};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("JXLSIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

struct Budget {
    runs: u64,
    secs: u64,
}

fn budget(prop: &str, tier: Tier) -> Budget {
    let quick = match prop {
        "P01" => 24_000,
        _ => 20_000,
    };
    match tier {
        Tier::Quick => Budget { runs: quick, secs: 45 },
        Tier::Thorough => Budget { runs: quick * 40, secs: 600 },
    }
}

#[derive(serde::Deserialize, Clone)]
struct Known {
    property: String,
    class: String,
    #[serde(default)]
    contains: String,
    what: String,
}

fn known() -> Vec<Known> {
    let f = verif().join("known-findings.json");
    let Ok(t) = std::fs::read_to_string(&f) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json is not JSON");
    serde_json::from_value(v["findings"].clone()).expect("bad known-findings.json")
}

enum Msg {
    Line(usize, String),
    Gone(usize),
}

struct Violation {
    run: u64,
    class: String,
    msg: String,
    plan: Plan,
}

pub fn check(prop: &str, tier: Tier, seed: u64, survey: bool) -> i32 {
    let start = Instant::now();
    let b = budget(prop, tier);
    let runs = std::env::var("JXLSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(b.runs);
    let secs = std::env::var("JXLSIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(b.secs);
    let nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel();
    let mut kids = vec![];
    for k in 0..nw {
        let mut c = Command::new(&exe)
            .args(["worker", prop, &k.to_string(), &nw.to_string(), &runs.to_string(), &secs.to_string()])
            .args(["--tier", tier_s, "--seed", &seed.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("JXLSIM_BT").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("cannot start a worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                let _ = tx.send(Msg::Line(k, l));
            }
            let _ = tx.send(Msg::Gone(k));
        });
        kids.push(c);
    }
    let kn = known();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut current: Vec<Option<(u64, Instant)>> = vec![None; nw];
    let mut ended = vec![false; nw];
    let mut open = nw;
    let mut total_runs = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut scen_counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let (mut traces, mut states, mut plans) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut complete = true;
    let mut found: Vec<Violation> = vec![];
    let mut grace: Option<Instant> = None;
    let is_known = |v: &Violation| {
        kn.iter()
            .find(|k| k.property == prop && k.class == v.class && v.msg.contains(&k.contains))
            .map(|k| k.what.clone())
    };
    let gen_plan = |i: u64| scen::generate(prop, seed, i, tier);
    while open > 0 {
        if grace.is_some_and(|g| Instant::now() > g) {
            break;
        }
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(k, l)) => {
                let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match tag {
                    "B" => current[k] = Some((rest.parse().unwrap_or(0), Instant::now())),
                    "V" => {
                        let v: Value = serde_json::from_str(rest).unwrap();
                        let v = Violation {
                            run: v["run"].as_u64().unwrap(),
                            class: v["class"].as_str().unwrap().into(),
                            msg: v["msg"].as_str().unwrap().into(),
                            plan: serde_json::from_value(v["plan"].clone()).unwrap(),
                        };
                        match is_known(&v) {
                            Some(w) => *known_hits.entry(w).or_default() += 1,
                            None => {
                                found.push(v);
                                if !survey && grace.is_none() {
                                    grace = Some(Instant::now() + Duration::from_secs(2));
                                }
                            }
                        }
                    }
                    "T" | "S" | "P" => {
                        let s = match tag {
                            "T" => &mut traces,
                            "S" => &mut states,
                            _ => &mut plans,
                        };
                        s.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()));
                    }
                    "E" => {
                        ended[k] = true;
                        current[k] = None;
                        let v: Value = serde_json::from_str(rest).unwrap();
                        total_runs += v["runs"].as_u64().unwrap();
                        complete &= v["complete"].as_bool().unwrap();
                        for (n, c) in v["counts"].as_object().unwrap() {
                            *counts.entry(n.clone()).or_default() += c.as_u64().unwrap();
                        }
                        for (n, c) in v["scenarios"].as_object().unwrap() {
                            *scen_counts.entry(n.clone()).or_default() += c.as_u64().unwrap();
                        }
                        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                    }
                    _ => {}
                }
            }
            Ok(Msg::Gone(k)) => {
                open -= 1;
                if !ended[k] {
                    // The worker died in the middle of a run.
                    complete = false;
                    let i = current[k].take().map(|x| x.0);
                    let st = kids[k].wait();
                    if grace.is_none()
                        && let Some(i) = i
                    {
                        let p = gen_plan(i);
                        let j = judge(&p, Duration::from_secs(120));
                        match j.class {
                            Some(c) => {
                                let v = Violation { run: i, class: c, msg: j.msg, plan: p };
                                match is_known(&v) {
                                    Some(w) => *known_hits.entry(w).or_default() += 1,
                                    None => found.push(v),
                                }
                            }
                            None => eprintln!("worker {k} ended ({st:?}) in run {i}, which passes on its own"),
                        }
                    }
                }
            }
            Err(_) => {}
        }
        for k in 0..nw {
            if let Some((_, t)) = current[k]
                && t.elapsed() > Duration::from_secs(100)
            {
                let _ = kids[k].kill();
            }
        }
    }
    for c in &mut kids {
        let _ = c.kill();
        let _ = c.wait();
    }
    if survey {
        let mut by: BTreeMap<String, Vec<&Violation>> = BTreeMap::new();
        for v in &found {
            by.entry(format!("{} {}", v.class, v.plan.scenario)).or_default().push(v);
        }
        println!("{prop}: {total_runs} runs in {:.1} s, {} distinct interleavings, {} states, scenarios {scen_counts:?}", start.elapsed().as_secs_f64(), traces.len(), states.len());
        println!("{counts:?}");
        println!("known: {known_hits:?}");
        for (c, vs) in by {
            println!("== {c}: {}", vs.len());
            for v in vs.iter().take(4) {
                println!("   run {} {}", v.run, v.msg.chars().take(260).collect::<String>());
            }
        }
        return found.len().min(1) as i32;
    }
    let wall = start.elapsed().as_secs_f64();
    for (w, n) in &known_hits {
        println!("KNOWN-FINDING: property={prop} {w} ({n} runs)");
    }
    found.sort_by_key(|v| v.run);
    let mut violations = 0;
    if let Some(v) = found.first() {
        violations = 1;
        report(prop, seed, tier_s, v);
    }
    evidence(
        prop, tier_s, seed, wall, total_runs, complete, violations, &counts, &scen_counts, &samples,
        traces.len(), states.len(), plans.len(), known_hits.len(), nw,
    );
    if violations > 0 {
        return 1;
    }
    println!("{prop}: {total_runs} runs, no violation ({wall:.0} s)");
    0
}

fn report(prop: &str, seed: u64, tier: &str, v: &Violation) {
    println!("run {} ({}): {}", v.run, v.class, v.msg);
    let (p, tries) = if v.class == "nondeterministic" {
        (v.plan.clone(), 0)
    } else {
        minimise(&v.plan, &v.class, Duration::from_secs(45))
    };
    let j = judge(&p, Duration::from_secs(120));
    let (p, msg, log) = if j.class.as_deref() == Some(v.class.as_str()) {
        (p, j.msg, j.log)
    } else {
        (v.plan.clone(), v.msg.clone(), 0)
    };
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let text = json!({
        "property": prop, "class": v.class, "message": msg, "seed": seed, "tier": tier, "run": v.run,
        "minimisation_attempts": tries, "log": log.to_string(), "plan": p,
    });
    let path = dir.join(format!("{prop}-{seed}-{}.json", v.run));
    std::fs::write(&path, serde_json::to_string_pretty(&text).unwrap()).expect("cannot write the replay file");
    println!("minimised ({tries} attempts): {msg}");
    println!("VIOLATION property={prop} replay={}", path.display());
}

pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("cannot read the replay file");
    let v: Value = serde_json::from_str(&t).expect("bad replay file");
    let p: Plan = serde_json::from_value(v["plan"].clone()).expect("bad plan");
    let j = judge(&p, Duration::from_secs(120));
    let want = v["class"].as_str().unwrap_or("");
    match j.class {
        Some(c) if c == want => {
            let exact = v["log"].as_str().unwrap_or("0") == j.log.to_string();
            println!("reproduced ({c}{}): {}", if exact { ", execution identical" } else { "" }, j.msg);
            println!("VIOLATION property={} replay={file}", v["property"].as_str().unwrap_or(""));
            1
        }
        Some(c) => {
            println!("a different violation ({c} instead of {want}): {}", j.msg);
            println!("VIOLATION property={} replay={file}", v["property"].as_str().unwrap_or(""));
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str, tier: &str, seed: u64, wall: f64, runs: u64, complete: bool, violations: u64,
    counts: &BTreeMap<String, u64>, scen: &BTreeMap<String, u64>, samples: &[Value],
    traces: usize, states: usize, plans: usize, known: usize, workers: usize,
) {
    let c = |n: &str| counts.get(n).copied().unwrap_or(0);
    let faults: BTreeMap<&str, u64> = counts
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k, *v)))
        .collect();
    let per_hour = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": plans,
            "rule": "a run counts once per distinct plan (file, packaging, corruption, delivery, source behaviour, calls, runner, schedule, faults), each executed to its end against the real decoder and judged",
            "samples": samples.iter().take(4).collect::<Vec<_>>(),
            "runs_per_hour": per_hour(runs),
            "executions": c("executions"),
            "executions_per_hour": per_hour(c("executions")),
            "seeds": format!("run seeds are derived from VERIF_SEED={seed}, the property and the run number; {runs} run seeds, {} per hour", per_hour(runs)),
            "planned_runs_completed": complete,
            "simulated_time": "the decoder reads no clock; simulated time is counted in steps",
            "simulated_steps": {
                "decoder_calls": c("decoder_calls"),
                "source_calls": c("source_calls"),
                "scheduling_points": c("sched_points"),
                "scheduling_decisions": c("sched_decisions"),
                "runner_tasks": c("runner_tasks"),
            },
            "faults_injected": faults,
            "distinct_interleavings": traces,
            "distinct_interleavings_measure": "hash of the sequence of tasks chosen at scheduling points with more than one runnable task",
            "distinct_states": states,
            "distinct_states_measure": "scenario x (input position, phase, frame index, skipping) at which the decoder suspended for input (capped per worker)",
            "scenarios": scen,
            "counts": counts,
            "components_real": ["jxl (all of it: container and codestream parsing, entropy decoding, modular and VarDCT frames, render pipeline, color, API)", "jxl_simd", "jxl_transforms", "std::io::BufReader"],
            "components_stub": ["input source (simulated file with faults)", "parallel runner and its threads (simulated, seeded schedule; atomics, mutexes and once-cells of the decoder run under shuttle)", "allocator (counts, and fails on request)", "hash-map seeds (getrandom)", "hardware thread count"],
            "known_findings_seen": known,
            "workers": workers,
        },
        "assumptions": [
            "interleavings are explored at the synchronisation operations of jxl::util::sync and of the runner, assuming sequentially consistent memory",
            "files are the repository's test corpus, generated lossless files, and corruptions of both",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap() + "\n")
        .expect("cannot write the evidence");
}
