//! Seeded schedulers for the simulated threads. Every decision is recorded as
//! a deviation from one fixed policy ("keep running the current task, else the
//! lowest-numbered runnable one"), so that a schedule can be replayed and
//! minimised as a short list of forced switches.

use crate::rng::{Rng, mix};
use serde::{Deserialize, Serialize};
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use std::cell::RefCell;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SchedSpec {
    /// The fixed policy itself.
    Fixed,
    /// Uniform choice at every decision.
    Random(u64),
    /// Keep the current task with probability 1 - 1/den.
    Sticky(u64, usize),
    /// Random priorities, `depth` priority changes within `horizon` decisions.
    Pct(u64, usize, usize),
    /// One task (chosen by the seed) runs only if nothing else can.
    Starve(u64),
    /// The task that ran least recently goes first.
    RoundRobin,
    /// The fixed policy with forced choices (decision number, task).
    Forced(Vec<(u32, u32)>),
}

#[derive(Default, Clone, Debug)]
pub struct SchedTrace {
    /// Decisions with more than one runnable task.
    pub decisions: u64,
    /// All scheduling points.
    pub points: u64,
    pub switches: u64,
    pub max_runnable: usize,
    pub hash: u64,
    pub forced: Vec<(u32, u32)>,
}

thread_local! {
    static TRACE: RefCell<SchedTrace> = RefCell::new(SchedTrace::default());
}

pub fn take_trace() -> SchedTrace {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

pub fn points() -> u64 {
    TRACE.with(|t| t.borrow().points)
}

pub struct SimScheduler {
    spec: SchedSpec,
    rng: Rng,
    started: bool,
    prio: Vec<u64>,
    last_run: Vec<u64>,
    change_at: Vec<u64>,
    forced_pos: usize,
    counting: Vec<bool>,
    n: u64,
    record: bool,
}

impl SimScheduler {
    pub fn new(spec: SchedSpec, record: bool) -> Self {
        let seed = match &spec {
            SchedSpec::Random(s)
            | SchedSpec::Sticky(s, _)
            | SchedSpec::Pct(s, _, _)
            | SchedSpec::Starve(s) => *s,
            _ => 0,
        };
        let mut rng = Rng::new(seed ^ 0x5c4e_d01e);
        let mut change_at = vec![];
        if let SchedSpec::Pct(_, depth, horizon) = &spec {
            for _ in 0..*depth {
                change_at.push(rng.below(*horizon) as u64);
            }
            change_at.sort();
        }
        SimScheduler {
            spec,
            rng,
            started: false,
            prio: vec![],
            last_run: vec![],
            change_at,
            forced_pos: 0,
            counting: vec![],
            n: 0,
            record,
        }
    }
}

impl Scheduler for SimScheduler {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.started {
            return None;
        }
        self.started = true;
        Some(Schedule::new(0))
    }

    fn next_task(
        &mut self,
        runnable: &[&Task],
        current: Option<TaskId>,
        is_yielding: bool,
    ) -> Option<TaskId> {
        let on = crate::alloc::pause();
        let r = self.choose(runnable, current, is_yielding);
        // Whether the decoder or the harness is allocating is per task.
        let n = current.into_iter().chain(r).map(usize::from).max().unwrap_or(0);
        if self.counting.len() <= n {
            self.counting.resize(n + 1, false);
        }
        if let Some(c) = current {
            self.counting[usize::from(c)] = on;
        }
        crate::alloc::resume(r.is_some_and(|r| self.counting[usize::from(r)]));
        r
    }

    fn next_u64(&mut self) -> u64 {
        self.rng.u64()
    }
}

impl SimScheduler {
    fn choose(
        &mut self,
        runnable: &[&Task],
        current: Option<TaskId>,
        is_yielding: bool,
    ) -> Option<TaskId> {
        let id = |t: &Task| usize::from(t.id());
        TRACE.with(|tr| {
            let mut tr = tr.borrow_mut();
            tr.points += 1;
            if runnable.len() == 1 {
                if current != Some(runnable[0].id()) {
                    tr.switches += 1;
                }
                return Some(runnable[0].id());
            }
            let decision = self.n;
            self.n += 1;
            let cur = current.and_then(|c| runnable.iter().position(|t| t.id() == c));
            let default = match cur {
                Some(c) if !is_yielding => c,
                _ => {
                    let mut best = usize::MAX;
                    let mut bi = 0;
                    for (i, t) in runnable.iter().enumerate() {
                        if Some(i) == cur {
                            continue;
                        }
                        if id(t) < best {
                            best = id(t);
                            bi = i;
                        }
                    }
                    bi
                }
            };
            let pick = match &self.spec {
                SchedSpec::Fixed => default,
                SchedSpec::Random(_) => self.rng.below(runnable.len()),
                SchedSpec::Sticky(_, den) => {
                    if !is_yielding && cur.is_some() && self.rng.below(*den) != 0 {
                        cur.unwrap()
                    } else {
                        self.rng.below(runnable.len())
                    }
                }
                SchedSpec::Pct(seed, _, _) => {
                    let m = runnable.iter().map(|t| id(t)).max().unwrap();
                    while self.prio.len() <= m {
                        let k = self.prio.len() as u64;
                        self.prio.push((mix(seed ^ mix(k + 1)) | 1) >> 1 | 1 << 40);
                    }
                    if let Some(c) = current
                        && self.change_at.first().is_some_and(|x| *x <= decision)
                    {
                        self.change_at.remove(0);
                        let ci = usize::from(c);
                        if ci < self.prio.len() {
                            self.prio[ci] = self.change_at.len() as u64 + 1;
                        }
                    }
                    if is_yielding && let Some(c) = current {
                        let ci = usize::from(c);
                        if ci < self.prio.len() {
                            self.prio[ci] = 0;
                        }
                    }
                    (0..runnable.len())
                        .max_by_key(|i| self.prio[id(runnable[*i])])
                        .unwrap()
                }
                SchedSpec::Starve(seed) => {
                    let m = runnable.len();
                    // The victim is a residue class, so that it exists in every batch.
                    let v = (*seed % 4) as usize;
                    let ok: Vec<usize> =
                        (0..m).filter(|i| id(runnable[*i]) % 4 != v).collect();
                    if ok.is_empty() {
                        self.rng.below(m)
                    } else {
                        ok[self.rng.below(ok.len())]
                    }
                }
                SchedSpec::RoundRobin => {
                    let m = runnable.iter().map(|t| id(t)).max().unwrap();
                    if self.last_run.len() <= m {
                        self.last_run.resize(m + 1, 0);
                    }
                    let i = (0..runnable.len())
                        .min_by_key(|i| (self.last_run[id(runnable[*i])], id(runnable[*i])))
                        .unwrap();
                    self.last_run[id(runnable[i])] = decision + 1;
                    i
                }
                SchedSpec::Forced(f) => {
                    while self.forced_pos < f.len() && (f[self.forced_pos].0 as u64) < decision {
                        self.forced_pos += 1;
                    }
                    let mut p = default;
                    if self.forced_pos < f.len() && f[self.forced_pos].0 as u64 == decision {
                        let want = f[self.forced_pos].1 as usize;
                        if let Some(i) = runnable.iter().position(|t| id(t) == want) {
                            p = i;
                        }
                    }
                    p
                }
            };
            tr.decisions += 1;
            tr.max_runnable = tr.max_runnable.max(runnable.len());
            tr.hash = mix(tr.hash ^ (id(runnable[pick]) as u64 + 1));
            if Some(pick) != cur {
                tr.switches += 1;
            }
            if self.record && pick != default {
                tr.forced
                    .push((decision as u32, id(runnable[pick]) as u32));
            }
            Some(runnable[pick].id())
        })
    }
}
