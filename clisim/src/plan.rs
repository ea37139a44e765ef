//! One simulated run, explicitly: the file, the command line, and what the
//! operating system and the threads do. Derived from (seed, property, number).

use crate::genfile::{self, GenSpec, Want};
use crate::os::{Fault, OsSpec};
use crate::rng::{Rng, derive, tag};
use crate::sched::SchedSpec;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileSpec {
    Named(String),
    Gen(GenSpec),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub file: FileSpec,
    /// The input file ends here.
    pub cut: Option<usize>,
    pub format: String,
    /// Options common to the faultless and the faulty execution.
    pub args: Vec<String>,
    /// Options of the faulty execution only.
    pub extra: Vec<String>,
    pub os: OsSpec,
    /// Fault positions as fractions (of 1 << 16) of what the faultless
    /// execution did, resolved when the run is judged.
    pub rel: Vec<Rel>,
    pub threads: usize,
    pub order: u64,
    pub hw: usize,
    pub sched: SchedSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rel {
    /// Disk capacity: fraction, and bytes missing from the end if fraction is None.
    Disk(Option<u32>, usize),
    Write(Option<u32>, u64, Fault),
    Read(u32, Fault),
    Seek(u32, Fault),
    Open(u32, Fault),
    Shrink(u32, u32),
    Cut(u32),
    CutEnd(usize),
}

const EIO: i32 = libc::EIO;
const ENOSPC: i32 = libc::ENOSPC;

fn corpus() -> &'static Vec<(String, usize)> {
    static L: OnceLock<Vec<(String, usize)>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for dir in ["jxl/resources/test", "jxl/resources/test/conformance_test_images"] {
            let Ok(rd) = std::fs::read_dir(PathBuf::from("/repo").join(dir)) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                let n = e.metadata().map(|m| m.len() as usize).unwrap_or(usize::MAX);
                if p.extension().is_some_and(|x| x == "jxl") && n <= 120_000 {
                    v.push((format!("{dir}/{}", p.file_name().unwrap().to_string_lossy()), n));
                }
            }
        }
        v.sort();
        v
    })
}

pub fn bytes(f: &FileSpec) -> Arc<Vec<u8>> {
    match f {
        FileSpec::Named(n) => Arc::new(std::fs::read(PathBuf::from("/repo").join(n)).expect("input file")),
        FileSpec::Gen(g) => genfile::cached(g),
    }
}

fn pick_file(r: &mut Rng) -> FileSpec {
    if r.chance(2, 5) && !corpus().is_empty() {
        // Small files more often than large ones.
        let (a, b) = (r.pick(corpus()).clone(), r.pick(corpus()).clone());
        FileSpec::Named(if a.1 < b.1 { a.0 } else { b.0 })
    } else {
        let w = *r.pick(&[Want::Any, Want::Any, Want::Animation, Want::Groups]);
        FileSpec::Gen(genfile::random(r.u64(), w))
    }
}

fn schedule(r: &mut Rng) -> SchedSpec {
    match r.below(7) {
        0 => SchedSpec::Random(r.u64()),
        1..=2 => SchedSpec::Sticky(r.u64(), *r.pick(&[4, 30, 300])),
        3..=4 => SchedSpec::Pct(r.u64(), *r.pick(&[1, 2, 5]), *r.pick(&[100, 2000, 20000])),
        5 => SchedSpec::Starve(r.u64()),
        _ => SchedSpec::RoundRobin,
    }
}

pub const BLOCK: u64 = 6;

pub fn generate(prop: &str, seed: u64, i: u64) -> Plan {
    // Neighbouring runs share the file and the command line.
    let mut r = Rng::new(derive(seed, &[tag(prop), 7, i / BLOCK]));
    let file = pick_file(&mut r);
    let gray = matches!(&file, FileSpec::Gen(g) if g.gray);
    let format = match r.below(12) {
        0..=3 => "png",
        4 => "apng",
        5..=6 if !gray => "ppm",
        7..=9 => "npy",
        10 => "exr",
        _ => "pgm",
    };
    let format = if format == "pgm" && !gray { "ppm" } else { format }.to_string();
    let mut args: Vec<String> = vec![];
    let mut push = |s: &str| args.push(s.to_string());
    if r.chance(1, 3) {
        push("--data-type");
        push(r.pick(&["u8", "u16", "f16", "f32"]));
    }
    if r.chance(1, 6) {
        push("--override-bitdepth");
        push(r.pick(&["8", "16", "32"]));
    }
    if r.chance(1, 3) {
        push("--icc-out");
        push("/sim/out.icc");
    }
    if r.chance(1, 5) {
        push("--original-icc-out");
        push("/sim/orig.icc");
    }
    if r.chance(1, 6) {
        push("--high-precision");
    }
    if r.chance(1, 10) {
        push("--preview");
    }
    let mut p = Plan {
        property: prop.into(),
        scenario: String::new(),
        file,
        cut: None,
        format,
        args,
        extra: vec![],
        os: OsSpec { clock: (1000, 0), ..Default::default() },
        rel: vec![],
        threads: 1,
        order: 0,
        hw: 1,
        sched: SchedSpec::Fixed,
    };
    let mut r = Rng::new(derive(seed, &[tag(prop), 8, i]));
    match prop {
        "P18" => p18(&mut r, &mut p, seed, i),
        "P19" => p19(&mut r, &mut p),
        _ => panic!("unknown property {prop}"),
    }
    p
}

fn frac(r: &mut Rng) -> u32 {
    r.below(1 << 16) as u32
}

fn p18(r: &mut Rng, p: &mut Plan, seed: u64, i: u64) {
    // Partial renders are further output files.
    let mut b = Rng::new(derive(seed, &[tag("P18"), 9, i / BLOCK]));
    if b.chance(1, 5) {
        p.args.push("--render-interval".into());
        p.args.push(format!("@{}", b.pick(&[2usize, 3, 8, 20])));
    }
    if b.chance(1, 10) {
        p.args.push("--allow-partial-files".into());
        if b.chance(1, 2) {
            p.rel.push(Rel::Cut(b.below(1 << 16) as u32));
        }
    }
    let soft = |r: &mut Rng, p: &mut Plan| {
        if r.chance(2, 3) {
            p.os.short_writes = Some((r.u64(), *r.pick(&[1, 16, 300, 9000, 100_000])));
        }
        for _ in 0..r.below(4) {
            p.rel.push(Rel::Write(Some(frac(r)), 0, Fault::Eintr));
        }
        if r.chance(1, 2) {
            p.rel.push(Rel::Write(None, r.below(3) as u64, Fault::Eintr));
        }
    };
    let hard = |r: &mut Rng| {
        let e = *r.pick(&[EIO, ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EAGAIN]);
        if r.chance(1, 2) { Fault::Once(e) } else { Fault::Forever(e) }
    };
    match r.below(6) {
        0 => {
            p.scenario = "soft".into();
            soft(r, p);
        }
        1..=2 => {
            p.scenario = "disk-full".into();
            if r.chance(1, 3) {
                soft(r, p);
            }
            if r.chance(1, 2) {
                let n = r.logsize(9000);
                p.rel.push(Rel::Disk(None, n));
            } else {
                p.rel.push(Rel::Disk(Some(frac(r)), 0));
            }
        }
        3..=4 => {
            p.scenario = "write-error".into();
            if r.chance(1, 3) {
                soft(r, p);
            }
            let f = hard(r);
            if r.chance(1, 2) {
                p.rel.push(Rel::Write(None, r.below(4) as u64, f));
            } else {
                p.rel.push(Rel::Write(Some(frac(r)), 0, f));
            }
        }
        _ => {
            p.scenario = "open-error".into();
            let e = *r.pick(&[libc::EACCES, ENOSPC, libc::EROFS, libc::ENFILE]);
            p.rel.push(Rel::Open(frac(r), if r.chance(1, 2) { Fault::Once(e) } else { Fault::Forever(e) }));
        }
    }
}

fn p19(r: &mut Rng, p: &mut Plan) {
    let threads = |r: &mut Rng, p: &mut Plan| {
        p.threads = *r.pick(&[2, 2, 3, 4, 8]);
        p.order = if r.chance(1, 2) { 0 } else { r.u64() };
        p.hw = *r.pick(&[1, 2, 4, 16]);
        p.sched = schedule(r);
    };
    let reads = |r: &mut Rng, p: &mut Plan| {
        p.os.short_reads = Some((r.u64(), *r.pick(&[1, 3, 64, 1000, 8192, 50_000])));
    };
    if r.chance(1, 4) {
        p.os.clock = (r.logsize(1 << 34) as u64, r.u64() | 1);
    }
    match r.below(8) {
        0 => {
            p.scenario = "reads".into();
            reads(r, p);
            if r.chance(1, 2) {
                threads(r, p);
            }
        }
        1 => {
            p.scenario = "threads".into();
            threads(r, p);
        }
        2 => {
            p.scenario = "interval".into();
            p.extra.push("--render-interval".into());
            // A fraction of the file.
            p.extra.push(format!("@{}", *r.pick(&[1usize, 2, 3, 7, 20, 50])));
            if r.chance(1, 2) {
                threads(r, p);
            }
        }
        3 => {
            p.scenario = "speedtest".into();
            p.extra = ["--speedtest", "--num-reps", r.pick(&["1", "2"]), "--warmup-reps", r.pick(&["0", "1"])]
                .map(|s| s.to_string())
                .to_vec();
            if r.chance(1, 2) {
                reads(r, p);
            }
            if r.chance(1, 2) {
                threads(r, p);
            }
        }
        4..=5 => {
            p.scenario = if r.chance(1, 2) { "truncated" } else { "partial" }.into();
            if p.scenario == "partial" {
                p.extra.push("--allow-partial-files".into());
            }
            p.rel.push(if r.chance(1, 4) { Rel::CutEnd(r.logsize(200)) } else { Rel::Cut(frac(r)) });
            if r.chance(1, 2) {
                reads(r, p);
            }
            if r.chance(1, 3) {
                threads(r, p);
            }
        }
        6 => {
            p.scenario = "read-error".into();
            if r.chance(2, 3) {
                reads(r, p);
            }
            let f = match r.below(4) {
                0 => Fault::Eintr,
                1..=2 => Fault::Once(EIO),
                _ => Fault::Forever(EIO),
            };
            match r.below(4) {
                0 => p.rel.push(Rel::Seek(frac(r), f)),
                _ => p.rel.push(Rel::Read(frac(r), f)),
            }
            if r.chance(1, 3) {
                p.extra.push("--allow-partial-files".into());
            }
        }
        _ => {
            p.scenario = "shrink".into();
            reads(r, p);
            p.rel.push(Rel::Shrink(frac(r), frac(r)));
            if r.chance(1, 2) {
                p.extra.push("--allow-partial-files".into());
            }
        }
    }
}
