//! A thread pool that cannot be created: its users fall back to working
//! sequentially (only EXR compression uses it here).
use std::fmt;

#[derive(Debug)]
pub struct ThreadPool(());
#[derive(Debug)]
pub struct ThreadPoolBuildError(());

impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no threads in the simulation")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Default)]
pub struct ThreadPoolBuilder(());

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Err(ThreadPoolBuildError(()))
    }
}

impl ThreadPool {
    pub fn current_num_threads(&self) -> usize {
        1
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        f()
    }
}

pub fn current_num_threads() -> usize {
    1
}
