//! Runs one property's check: executes runs on all cores, minimises the first
//! violation into a replay file and writes the evidence.

use crate::judge::{Cache, Found, Judged, judge};
use crate::os::{Fault, OsSpec};
use crate::plan::{self, BLOCK, Plan, Rel};
use crate::sched::SchedSpec;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("JXLSIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

#[derive(serde::Deserialize, Clone)]
struct Known {
    property: String,
    class: String,
    #[serde(default)]
    contains: String,
    what: String,
}

fn known() -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(verif().join("known-findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json is not JSON");
    serde_json::from_value(v["findings"].clone()).expect("bad known-findings.json")
}

#[derive(Default)]
struct Total {
    runs: u64,
    counts: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    states: HashSet<u64>,
    plans: HashSet<u64>,
    samples: Vec<String>,
    found: Vec<(u64, Plan, Found)>,
    known: BTreeMap<String, u64>,
}

pub fn check(prop: &str, tier: &str, seed: u64, survey: bool) -> i32 {
    let start = Instant::now();
    let quick = tier != "thorough";
    let env = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<u64>().ok());
    let runs = env("JXLSIM_RUNS").unwrap_or(if quick { 6_000 } else { 240_000 });
    let secs = env("JXLSIM_SECS").unwrap_or(if quick { 45 } else { 600 });
    let nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let complete = AtomicBool::new(true);
    let total = Mutex::new(Total::default());
    let kn = known();
    std::thread::scope(|s| {
        for _ in 0..nw {
            s.spawn(|| {
                let mut cache = Cache::default();
                loop {
                    let b = next.fetch_add(1, Ordering::SeqCst);
                    if b * BLOCK >= runs {
                        return;
                    }
                    for i in b * BLOCK..(b + 1) * BLOCK {
                        if stop.load(Ordering::SeqCst) || start.elapsed() > Duration::from_secs(secs) {
                            complete.store(false, Ordering::SeqCst);
                            return;
                        }
                        let p = plan::generate(prop, seed, i);
                        let mut j = judge(&p, &mut cache);
                        if i % 30 == 7 && j.found.is_none() {
                            let k = judge(&p, &mut cache);
                            *j.counts.entry("executed_twice".into()).or_default() += 1;
                            if k.log != j.log {
                                j.found = Some(Found {
                                    class: "nondeterministic".into(),
                                    msg: "two executions of the same plan differ".into(),
                                });
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.runs += 1;
                        *t.scen.entry(p.scenario.clone()).or_default() += 1;
                        for (n, c) in &j.counts {
                            *t.counts.entry(n.clone()).or_default() += c;
                        }
                        t.traces.extend(&j.traces);
                        t.states.extend(&j.states);
                        let text = serde_json::to_string(&p).unwrap();
                        t.plans.insert(crate::rng::hash_bytes(0, text.as_bytes()));
                        if t.samples.len() < 4 && i % 11 == 5 {
                            t.samples.push(text.chars().take(600).collect());
                        }
                        if let Some(f) = j.found {
                            match kn.iter().find(|k| k.property == prop && k.class == f.class && f.msg.contains(&k.contains)) {
                                Some(k) => *t.known.entry(k.what.clone()).or_default() += 1,
                                None => {
                                    t.found.push((i, p, f));
                                    if !survey {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let mut t = total.into_inner().unwrap();
    t.found.sort_by_key(|f| f.0);
    if survey {
        println!("{prop}: {} runs in {:.1} s, {} interleavings, {} states {:?}", t.runs, start.elapsed().as_secs_f64(), t.traces.len(), t.states.len(), t.scen);
        println!("{:?}", t.counts);
        let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (i, p, f) in &t.found {
            by.entry(format!("{} {}", f.class, p.scenario)).or_default().push(format!(
                "   run {i} {} {:?} {:?} {}",
                p.format,
                p.args,
                p.extra,
                f.msg.chars().take(220).collect::<String>()
            ));
        }
        for (k, v) in by {
            println!("== {k}: {}", v.len());
            for l in v.iter().take(4) {
                println!("{l}");
            }
        }
        return 0;
    }
    let wall = start.elapsed().as_secs_f64();
    for (w, n) in &t.known {
        println!("KNOWN-FINDING: property={prop} {w} ({n} runs)");
    }
    if let Some((i, p, f)) = t.found.first() {
        println!("run {i} ({}): {}", f.class, f.msg);
        let (p2, j, tries) = minimise(p, &f.class);
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let msg = j.found.as_ref().map_or(f.msg.clone(), |f| f.msg.clone());
        let text = json!({"simulator": "clisim", "property": prop, "class": f.class, "message": msg, "seed": seed,
            "tier": tier, "run": i, "minimisation_attempts": tries, "log": j.log.to_string(),
            "faults": j.resolved, "plan": p2});
        let path = dir.join(format!("{prop}-{seed}-{i}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&text).unwrap()).expect("cannot write the replay file");
        println!("minimised ({tries} attempts): {msg}");
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    evidence(prop, tier, seed, wall, &t, complete.load(Ordering::SeqCst), nw);
    if !t.found.is_empty() {
        return 1;
    }
    println!("{prop}: {} runs, no violation ({wall:.0} s)", t.runs);
    0
}

fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut alt = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    for k in 0..p.rel.len() {
        alt(&|q| {
            q.rel.remove(k);
        });
    }
    alt(&|q| q.os.short_reads = None);
    alt(&|q| q.os.short_writes = None);
    alt(&|q| q.os.clock = (1000, 0));
    alt(&|q| {
        q.threads = 1;
        q.sched = SchedSpec::Fixed;
        q.order = 0;
        q.hw = 1;
    });
    alt(&|q| q.order = 0);
    alt(&|q| q.sched = SchedSpec::Fixed);
    alt(&|q| q.threads = 2);
    alt(&|q| q.hw = 1);
    for k in 0..p.args.len() {
        alt(&|q| {
            let n = if ["--preview", "--high-precision", "--allow-partial-files"].contains(&q.args[k].as_str()) { 1 } else { 2 };
            if q.args[k].starts_with("--") {
                q.args.drain(k..k + n);
            }
        });
    }
    if let SchedSpec::Forced(f) = &p.sched {
        let mut n = f.len() / 2;
        while n >= 1 {
            for s in (0..f.len()).step_by(n) {
                alt(&|q| {
                    let mut g = f.clone();
                    g.drain(s..(s + n).min(g.len()));
                    q.sched = SchedSpec::Forced(g);
                });
                if n == 1 && s > 40 {
                    break;
                }
            }
            n /= 2;
        }
    }
    for k in 0..p.rel.len() {
        alt(&|q| {
            let h = |x: &mut u32| *x /= 2;
            match &mut q.rel[k] {
                Rel::Disk(Some(x), _) | Rel::Write(Some(x), _, _) | Rel::Read(x, _) | Rel::Seek(x, _) | Rel::Open(x, _) | Rel::Cut(x) => h(x),
                Rel::Disk(None, n) | Rel::CutEnd(n) => *n = (*n / 2).max(1),
                _ => {}
            }
        });
        alt(&|q| {
            if let Rel::Write(_, _, f @ Fault::Forever(_)) = &mut q.rel[k] {
                let Fault::Forever(e) = *f else { return };
                *f = Fault::Once(e);
            }
        });
    }
    if let plan::FileSpec::Gen(g) = &p.file {
        for k in 0..g.frames.len() {
            alt(&|q| {
                if let plan::FileSpec::Gen(g) = &mut q.file
                    && g.frames.len() > 1
                {
                    g.frames.remove(k);
                }
            });
        }
    }
    v
}

fn minimise(p: &Plan, class: &str) -> (Plan, Judged, u64) {
    let t = Instant::now();
    let mut cache = Cache::default();
    let mut best = p.clone();
    let mut j = judge(&best, &mut cache);
    let same = |j: &Judged| j.found.as_ref().is_some_and(|f| f.class == class);
    if class == "nondeterministic" || !same(&j) {
        return (best, j, 0);
    }
    let mut tries = 0;
    if !matches!(best.sched, SchedSpec::Fixed) && best.threads > 1 {
        // The same schedule, explicitly.
        let mut q = best.clone();
        q.sched = SchedSpec::Forced(j.forced.clone());
        let k = judge(&q, &mut cache);
        tries += 1;
        if same(&k) {
            (best, j) = (q, k);
        }
    }
    'again: loop {
        for q in smaller(&best) {
            if t.elapsed() > Duration::from_secs(45) {
                break 'again;
            }
            tries += 1;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(&q, &mut Cache::default())));
            if let Ok(k) = r
                && same(&k)
            {
                (best, j) = (q, k);
                continue 'again;
            }
        }
        break;
    }
    (best, j, tries)
}

pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("cannot read the replay file");
    let v: Value = serde_json::from_str(&t).expect("bad replay file");
    let p: Plan = serde_json::from_value(v["plan"].clone()).expect("bad plan");
    let j = judge(&p, &mut Cache::default());
    match j.found {
        Some(f) => {
            let exact = v["log"].as_str() == Some(&j.log.to_string());
            println!("reproduced ({}{}): {}", f.class, if exact { ", execution identical" } else { "" }, f.msg);
            println!("VIOLATION property={} replay={file}", v["property"].as_str().unwrap_or(""));
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn evidence(prop: &str, tier: &str, seed: u64, wall: f64, t: &Total, complete: bool, workers: usize) {
    let per_hour = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let c = |n: &str| t.counts.get(n).copied().unwrap_or(0);
    let faults: BTreeMap<_, _> =
        t.counts.iter().filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k.to_string(), *v))).collect();
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.plans.len(),
            "rule": "a run counts once per distinct plan (file, command line, file-system behaviour and faults, threads, schedule), each executed to its end by the tool's own main() and judged",
            "samples": t.samples,
            "runs_per_hour": per_hour(t.runs),
            "executions": c("executions"),
            "seeds": format!("run seeds are derived from VERIF_SEED={seed}, the property and the run number; {} run seeds, {} per hour", t.runs, per_hour(t.runs)),
            "planned_runs_completed": complete,
            "simulated_time": "the tool waits for nothing; its clock is simulated and advances per call",
            "simulated_steps": {"system_calls": c("syscalls"), "scheduling_points": c("sched_points"),
                "scheduling_decisions": c("sched_decisions"), "runner_tasks": c("runner_tasks"), "bytes_written": c("bytes_written")},
            "faults_injected": faults,
            "distinct_interleavings": t.traces.len(),
            "distinct_interleavings_measure": "hash of the sequence of tasks chosen at scheduling points with more than one runnable task",
            "distinct_states": t.states.len(),
            "distinct_states_measure": "(system calls made, outcome) at the end of an execution",
            "scenarios": t.scen,
            "counts": t.counts,
            "components_real": ["jxl_cli (main.rs, dec, enc)", "jxl", "jxl_cms and lcms2", "png, exr (sequential), clap", "std::fs, BufReader, BufWriter"],
            "components_stub": ["file system calls (open, read, write, lseek, close, fsync, rename, unlink) on an in-memory disk", "rayon (threads and schedule simulated)", "rayon-core (no pool: EXR compresses sequentially)", "clock", "getrandom", "hardware thread count"],
            "known_findings_seen": t.known.len(),
            "workers": workers,
        },
        "assumptions": [
            "data counts as written when the write call returns (no power failure after the tool has ended)",
            "files are the repository's smaller test files and generated lossless files",
        ],
        "wall_s": wall,
        "violations": t.found.len().min(1),
    });
    let _ = OsSpec::default();
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap() + "\n")
        .expect("cannot write the evidence");
}
