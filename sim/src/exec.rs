//! Runs one closure as one simulated execution: on a fresh OS thread, with
//! every source of nondeterminism (task choice, hash seeds, hardware thread
//! count) set from the plan.

use crate::alloc;
use crate::rng::mix;
use crate::sched::{SchedSpec, SchedTrace, SimScheduler, take_trace};
use std::cell::{Cell, RefCell};
use std::num::NonZeroUsize;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x1234_5678) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

/// std seeds its hash maps with this; the definition in this binary takes
/// precedence over the C library's.
///
/// # Safety
/// Same contract as getrandom(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let e = mix(ENTROPY.get());
        ENTROPY.set(e);
        // SAFETY: the caller provides `len` writable bytes.
        unsafe { *buf.add(i) = e as u8 };
    }
    len as isize
}

#[derive(Clone, Debug)]
pub struct ExecSpec {
    pub sched: SchedSpec,
    pub hw: usize,
    pub entropy: u64,
    pub record: bool,
}

#[derive(Debug)]
pub enum ExecEnd<T> {
    Ok(T),
    /// The closure, a task, or the scheduler panicked (this includes deadlock
    /// and livelock, which the scheduler reports by panicking).
    Panic(String),
}

pub struct ExecResult<T> {
    pub end: ExecEnd<T>,
    pub trace: SchedTrace,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let on = alloc::pause();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_SIM.get() {
            if std::env::var_os("JXLSIM_BT").is_some() {
                eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
            }
            PANIC_MSG.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(format!("{msg} at {loc}"));
                }
            });
        } else {
            eprintln!("harness panic: {msg} at {loc}");
        }
        alloc::resume(on);
    }));
}

pub fn take_panic() -> Option<String> {
    PANIC_MSG.with(|p| p.borrow_mut().take())
}

/// Removes the directory prefixes that depend on where the sources live.
pub fn clean_msg(m: &str) -> String {
    m.replace("/repo/", "")
}

pub fn run<T: Send + 'static>(
    spec: &ExecSpec,
    f: impl FnOnce() -> T + Send + 'static,
) -> ExecResult<T> {
    let spec = spec.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            ENTROPY.set(spec.entropy);
            alloc::set_junk(spec.entropy);
            IN_SIM.set(true);
            take_panic();
            jxl::util::sync::set_available_parallelism(NonZeroUsize::new(spec.hw.max(1)));
            let mut cfg = shuttle::Config::new();
            cfg.stack_size = 4 << 20;
            cfg.failure_persistence = shuttle::FailurePersistence::None;
            cfg.max_steps = shuttle::MaxSteps::FailAfter(60_000_000);
            cfg.silence_warnings = true;
            let out: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
            let f = Mutex::new(Some(f));
            let out2 = out.clone();
            let runner = shuttle::Runner::new(SimScheduler::new(spec.sched, spec.record), cfg);
            let r = catch_unwind(AssertUnwindSafe(|| {
                runner.run(move || {
                    let f = f.lock().unwrap().take().unwrap();
                    let v = f();
                    *out2.lock().unwrap() = Some(v);
                });
            }));
            alloc::stop();
            IN_SIM.set(false);
            let trace = take_trace();
            let end = match r {
                Ok(()) if let Some(n) = alloc::overrun() => {
                    ExecEnd::Panic(format!("a block of {n} bytes of memory was written past its end"))
                }
                Ok(()) => match out.lock().unwrap().take() {
                    Some(v) => ExecEnd::Ok(v),
                    None => ExecEnd::Panic("execution ended without a result".into()),
                },
                Err(p) => {
                    let s = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    ExecEnd::Panic(clean_msg(&take_panic().unwrap_or(s)))
                }
            };
            ExecResult { end, trace }
        })
        .unwrap()
        .join()
        .expect("simulation thread died")
}
