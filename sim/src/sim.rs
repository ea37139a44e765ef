//! One plan, one simulated execution.

use crate::alloc;
use crate::corpus;
use crate::drive::{Driver, End, Outcome};
use crate::exec::{self, ExecEnd, ExecSpec};
use crate::plan::*;
use crate::rng::Rng;
use crate::sched::SchedTrace;

pub struct Ran {
    pub out: Outcome,
    pub px: Option<Vec<Vec<u8>>>,
    pub trace: SchedTrace,
    /// The further decoders of the plan.
    pub also: Vec<Outcome>,
}

struct Cargo<T>(T);
// SAFETY: simulated threads are coroutines on one OS thread; what is moved
// between them never changes its OS thread. (What the decoder itself may do
// across real threads is decided by its own Send bounds, checked below.)
unsafe impl<T> Send for Cargo<T> {}
unsafe impl<T> Sync for Cargo<T> {}

#[allow(dead_code)]
fn decoders_can_be_moved_between_threads() {
    fn is_send<T: Send>() {}
    is_send::<jxl::api::JxlDecoderInner>();
}

fn one(p: Plan, pixels: bool) -> (Outcome, Option<Vec<Vec<u8>>>) {
    let data = corpus::plan_bytes(&p);
    alloc::start();
    let mut d = Driver::new(p, data);
    if pixels {
        d.keep_pixels = Some(vec![]);
    }
    let (mut o, px) = d.run();
    o.mem_peak = alloc::peak();
    o.mem_end = alloc::current();
    (o, px)
}

/// A plan executed twice in a row in one execution: the outcome of the second time.
pub fn run_warm(plan: &Plan) -> Outcome {
    let spec = ExecSpec {
        sched: plan.sched.clone(),
        hw: plan.hw,
        entropy: plan.entropy,
        record: false,
    };
    let p = plan.clone();
    let r = exec::run(&spec, move || {
        one(p.clone(), false);
        one(p, false).0
    });
    match r.end {
        ExecEnd::Ok(o) => o,
        ExecEnd::Panic(m) => {
            let mut o = Outcome::new();
            o.end = End::Panic(m);
            o
        }
    }
}

fn threads(plans: Vec<Plan>) -> Vec<Outcome> {
    let mut handles = vec![];
    for p in plans {
        handles.push(shuttle::thread::spawn(move || {
            let data = corpus::plan_bytes(&p);
            Driver::new(p, data).run().0
        }));
    }
    handles.into_iter().map(|h| h.join().unwrap()).collect()
}

fn interleaved(plans: Vec<Plan>, seed: u64, hop: bool) -> Vec<Outcome> {
    let mut r = Rng::new(seed);
    let n = plans.len();
    let ops: Vec<Vec<Op>> = plans.iter().map(|p| p.ops.clone()).collect();
    let mut at = vec![0usize; n];
    let mut ds: Vec<Option<Driver>> = plans
        .into_iter()
        .map(|p| {
            let data = corpus::plan_bytes(&p);
            let mut d = Driver::new(p, data);
            d.begin();
            Some(d)
        })
        .collect();
    let mut done: Vec<Option<Outcome>> = (0..n).map(|_| None).collect();
    loop {
        let open: Vec<usize> = (0..n).filter(|i| ds[*i].is_some()).collect();
        if open.is_empty() {
            break;
        }
        let i = open[r.below(open.len())];
        let op = ops[i].get(at[i]).cloned();
        at[i] += 1;
        let d = Cargo(ds[i].take().unwrap());
        let f = move || {
            let d = d;
            let Cargo(mut d) = d;
            match op {
                Some(op) => {
                    if d.do_op(&op) {
                        Cargo((Some(d), None))
                    } else {
                        Cargo((None, Some(d.finish().0)))
                    }
                }
                None => Cargo((None, Some(d.finish().0))),
            }
        };
        let Cargo((d, o)) = if hop {
            shuttle::thread::spawn(f).join().unwrap()
        } else {
            f()
        };
        ds[i] = d;
        if o.is_some() {
            done[i] = o;
        }
    }
    done.into_iter().map(|x| x.unwrap()).collect()
}

pub fn run(plan: &Plan, record: bool, pixels: bool) -> Ran {
    let spec = ExecSpec {
        sched: plan.sched.clone(),
        hw: plan.hw,
        entropy: plan.entropy,
        record,
    };
    let p = plan.clone();
    let r = exec::run(&spec, move || {
        if p.also.is_empty() {
            let (o, px) = one(p, pixels);
            (vec![o], px)
        } else {
            let mut all = vec![];
            let mut first = p.clone();
            first.also.clear();
            all.push(first);
            all.extend(p.also.iter().cloned());
            let outs = match p.mixing {
                0 => threads(all),
                m => interleaved(all, m, m % 2 == 0),
            };
            (outs, None)
        }
    });
    let (mut outs, px) = match r.end {
        ExecEnd::Ok((o, px)) => (o, px),
        ExecEnd::Panic(m) => {
            let mut o = Outcome::new();
            o.end = End::Panic(m);
            (vec![o], None)
        }
    };
    let mut out = outs.remove(0);
    out.trace_hash = r.trace.hash;
    out.decisions = r.trace.decisions;
    out.max_runnable = r.trace.max_runnable;
    out.points = r.trace.points;
    Ran {
        out,
        px,
        trace: r.trace,
        also: outs,
    }
}
