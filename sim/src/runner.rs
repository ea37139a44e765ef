//! The simulated thread pool behind `JxlParallelRunner`.

use crate::rng::Rng;
use jxl::api::{JxlParallelRunner, JxlParallelRunnerFun};
use jxl::error::{Error, Result};
use serde::{Deserialize, Serialize};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum RunKind {
    /// No runner is passed at all.
    None,
    Seq,
    /// One thread, tasks in reverse order.
    Rev,
    /// One thread, tasks in a seeded order.
    Shuffled(u64),
    /// This many simulated threads taking tasks from a shared counter.
    Pool(usize),
    /// This many simulated threads, tasks dealt out in a seeded order.
    Dealt(usize, u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunFault {
    /// Which call of `run` misbehaves.
    pub at: u64,
    pub kind: RunFaultKind,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum RunFaultKind {
    /// The pool refuses the job.
    RefuseAll,
    /// The pool fails after this many tasks (it lost its workers).
    After(usize),
    /// All tasks run, then the pool reports a failure.
    AfterAll,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunnerSpec {
    pub kind: RunKind,
    pub fault: Option<RunFault>,
}

#[derive(Default, Clone, Debug)]
pub struct RunStats {
    pub runs: u64,
    pub tasks: u64,
    pub max_tasks: u64,
    pub parallel_runs: u64,
    pub task_errors: u64,
    pub faults: u64,
    pub task_err_in_call: bool,
    pub fault_in_call: bool,
    pub first_err: Option<String>,
    pub panic: Option<String>,
    pub live: u64,
    pub max_live: u64,
}

/// Simulated threads never run at the same time, so this lock is only there
/// to satisfy the type system; it is not a scheduling point.
pub type Stats = Arc<Mutex<RunStats>>;

pub struct SimRunner {
    pub spec: RunnerSpec,
    pub st: Stats,
}

pub const POOL_ERROR: &str = "simulated pool failure";

fn pool_error(st: &Stats) -> Error {
    {
        let mut r = st.lock().unwrap();
        r.faults += 1;
        r.fault_in_call = true;
    }
    Error::IOError(std::io::Error::other(POOL_ERROR))
}

fn call(st: &Stats, fun: &JxlParallelRunnerFun<'_>, i: usize) -> Result<()> {
    {
        let mut r = st.lock().unwrap();
        r.tasks += 1;
        r.live += 1;
        r.max_live = r.max_live.max(r.live);
    }
    let res = call_inner(st, fun, i);
    st.lock().unwrap().live -= 1;
    res
}

fn call_inner(st: &Stats, fun: &JxlParallelRunnerFun<'_>, i: usize) -> Result<()> {
    let r = {
        let _i = crate::alloc::inside();
        catch_unwind(AssertUnwindSafe(|| fun(i)))
    };
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => {
            let mut r = st.lock().unwrap();
            r.task_errors += 1;
            r.task_err_in_call = true;
            if r.first_err.is_none() {
                r.first_err = Some(e.to_string());
            }
            Err(e)
        }
        Err(_) => {
            let m = crate::exec::take_panic().unwrap_or_else(|| "panic".into());
            let mut r = st.lock().unwrap();
            r.task_err_in_call = true;
            if r.panic.is_none() {
                r.panic = Some(m);
            }
            drop(r);
            Err(Error::IOError(std::io::Error::other("task panicked")))
        }
    }
}

impl JxlParallelRunner for SimRunner {
    fn run(&mut self, num: usize, fun: &JxlParallelRunnerFun<'_>) -> Result<()> {
        let _o = crate::alloc::outside();
        let n_run = {
            let mut r = self.st.lock().unwrap();
            r.runs += 1;
            r.max_tasks = r.max_tasks.max(num as u64);
            r.runs - 1
        };
        let fault = self.spec.fault.filter(|f| f.at == n_run).map(|f| f.kind);
        if fault == Some(RunFaultKind::RefuseAll) {
            return Err(pool_error(&self.st));
        }
        let limit = match fault {
            Some(RunFaultKind::After(k)) => Some(k),
            _ => None,
        };
        let mut order: Vec<usize> = (0..num).collect();
        let threads = match self.spec.kind {
            RunKind::None | RunKind::Seq => 1,
            RunKind::Rev => {
                order.reverse();
                1
            }
            RunKind::Shuffled(s) | RunKind::Dealt(_, s) => {
                let mut r = Rng::new(s ^ n_run);
                for i in (1..num).rev() {
                    order.swap(i, r.below(i + 1));
                }
                match self.spec.kind {
                    RunKind::Dealt(t, _) => t,
                    _ => 1,
                }
            }
            RunKind::Pool(t) => t,
        };
        let threads = threads.min(num);
        if threads <= 1 {
            for (k, i) in order.into_iter().enumerate() {
                if limit.is_some_and(|l| k >= l) {
                    return Err(pool_error(&self.st));
                }
                call(&self.st, fun, i)?;
            }
            if fault == Some(RunFaultKind::AfterAll) || limit.is_some() {
                return Err(pool_error(&self.st));
            }
            return Ok(());
        }
        self.st.lock().unwrap().parallel_runs += 1;
        let next = shuttle::sync::atomic::AtomicUsize::new(0);
        let error = shuttle::sync::Mutex::new(None);
        shuttle::thread::scope(|s| {
            let mut handles = vec![];
            for _ in 0..threads {
                let (next, error, order, st) = (&next, &error, &order, &self.st);
                handles.push(s.spawn(move || {
                    loop {
                        if error.lock().unwrap().is_some() {
                            return;
                        }
                        let k = next.fetch_add(1, shuttle::sync::atomic::Ordering::SeqCst);
                        if k >= order.len() {
                            return;
                        }
                        let r = if limit.is_some_and(|l| k >= l) {
                            Err(pool_error(st))
                        } else {
                            call(st, fun, order[k])
                        };
                        if let Err(e) = r {
                            let mut g = error.lock().unwrap();
                            if g.is_none() {
                                *g = Some(e);
                            }
                            return;
                        }
                    }
                }));
            }
            for h in handles {
                h.join().unwrap();
            }
        });
        if let Some(e) = error.into_inner().unwrap() {
            return Err(e);
        }
        if fault == Some(RunFaultKind::AfterAll) || limit.is_some() {
            return Err(pool_error(&self.st));
        }
        Ok(())
    }
}
