//! sched.rs (shared with jxlsim) pauses allocation accounting; there is none here.
pub fn pause() -> bool {
    false
}
pub fn resume(_: bool) {}
