//! The part of rayon the tool uses, on simulated threads: the simulator
//! decides how many there are, the order in which tasks are dealt to them and
//! every interleaving of them.

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

static THREADS: AtomicUsize = AtomicUsize::new(1);
static ORDER: AtomicU64 = AtomicU64::new(0);
pub static RUNS: AtomicU64 = AtomicU64::new(0);
pub static TASKS: AtomicU64 = AtomicU64::new(0);

/// The simulated machine: its threads, and the seed of the order in which they
/// find work (0: ascending).
pub fn sim_set(threads: usize, order: u64) {
    THREADS.store(threads, Ordering::SeqCst);
    ORDER.store(order, Ordering::SeqCst);
}

pub fn current_num_threads() -> usize {
    THREADS.load(Ordering::SeqCst)
}

fn order(num: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..num).collect();
    let mut s = ORDER.load(Ordering::SeqCst);
    if s != 0 {
        s ^= RUNS.load(Ordering::SeqCst);
        for i in (1..num).rev() {
            s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^= z >> 31;
            o.swap(i, (z % (i as u64 + 1)) as usize);
        }
    }
    o
}

fn drive<E: Send>(range: std::ops::Range<usize>, f: &(dyn Fn(usize) -> Result<(), E> + Sync)) -> Result<(), E> {
    RUNS.fetch_add(1, Ordering::SeqCst);
    let order: Vec<usize> = order(range.len()).into_iter().map(|i| i + range.start).collect();
    TASKS.fetch_add(order.len() as u64, Ordering::SeqCst);
    let threads = current_num_threads().min(order.len());
    if threads <= 1 {
        return order.into_iter().try_for_each(f);
    }
    let next = shuttle::sync::atomic::AtomicUsize::new(0);
    let error = shuttle::sync::Mutex::new(None);
    shuttle::thread::scope(|s| {
        let mut handles = vec![];
        for _ in 0..threads {
            let (next, error, order) = (&next, &error, &order);
            handles.push(s.spawn(move || loop {
                if error.lock().unwrap().is_some() {
                    return;
                }
                let k = next.fetch_add(1, shuttle::sync::atomic::Ordering::SeqCst);
                if k >= order.len() {
                    return;
                }
                if let Err(e) = f(order[k]) {
                    let mut g = error.lock().unwrap();
                    if g.is_none() {
                        *g = Some(e);
                    }
                    return;
                }
            }));
        }
        for h in handles {
            if let Err(p) = h.join() {
                std::panic::resume_unwind(p);
            }
        }
    });
    match error.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub mod iter {
    use std::ops::Range;

    pub trait IntoParallelIterator {
        type Iter;
        fn into_par_iter(self) -> Self::Iter;
    }

    pub struct ParRange(Range<usize>);

    impl IntoParallelIterator for Range<usize> {
        type Iter = ParRange;
        fn into_par_iter(self) -> ParRange {
            ParRange(self)
        }
    }

    pub trait ParallelIterator: Sized {
        fn range(self) -> Range<usize>;
        fn try_for_each<F, E>(self, f: F) -> Result<(), E>
        where
            F: Fn(usize) -> Result<(), E> + Sync + Send,
            E: Send,
        {
            super::drive(self.range(), &f)
        }
        fn for_each<F: Fn(usize) + Sync + Send>(self, f: F) {
            let _ = super::drive::<()>(self.range(), &|i| {
                f(i);
                Ok(())
            });
        }
    }

    impl ParallelIterator for ParRange {
        fn range(self) -> Range<usize> {
            self.0
        }
    }

    pub use ParallelIterator as IndexedParallelIterator;
}

pub mod prelude {
    pub use crate::iter::{IntoParallelIterator, ParallelIterator};
}
