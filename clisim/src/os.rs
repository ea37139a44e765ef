//! The simulated operating system: the libc calls through which std reads and
//! writes files are defined here, in the tool's own process. Paths under
//! /sim/ live in memory; calls on them fail, fall short, are interrupted or
//! find the disk full as the plan says. Everything else goes to the kernel.

use crate::rng::Rng;
use libc::{c_char, c_int, c_long, c_void, iovec, off_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ffi::CStr;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// Interrupted once.
    Eintr,
    /// Fails once.
    Once(i32),
    /// Fails from here on.
    Forever(i32),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct OsSpec {
    /// Reads return fewer bytes than asked for (seed, largest size).
    pub short_reads: Option<(u64, usize)>,
    /// Faults at the n-th read call.
    pub reads: Vec<(u64, Fault)>,
    /// Faults at the n-th seek call.
    pub seeks: Vec<(u64, Fault)>,
    /// At the n-th read call the input file shrinks to this length.
    pub shrink: Option<(u64, usize)>,
    /// Writes accept fewer bytes than offered (seed, largest size).
    pub short_writes: Option<(u64, usize)>,
    /// Faults at the n-th write call.
    pub writes: Vec<(u64, Fault)>,
    /// Bytes the disk holds beyond the input file.
    pub disk: Option<usize>,
    /// Faults at the n-th open call.
    pub opens: Vec<(u64, Fault)>,
    /// The clock: nanoseconds per call to read it, and the seed of its jumps.
    pub clock: (u64, u64),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct OsStats {
    pub opens: u64,
    pub reads: u64,
    pub seeks: u64,
    pub writes: u64,
    pub syncs: u64,
    pub clock_reads: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub fired: BTreeMap<String, u64>,
    /// A read or write failed for good.
    pub hard_read: bool,
    pub hard_write: bool,
    pub log: u64,
}

struct Fd {
    path: String,
    pos: usize,
    append: bool,
}

pub struct Os {
    pub files: BTreeMap<String, Vec<u8>>,
    fds: BTreeMap<c_int, Fd>,
    spec: OsSpec,
    rng_r: Rng,
    rng_w: Rng,
    rng_c: Rng,
    now: u64,
    used: usize,
    pub st: OsStats,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    limit: u64,
    entropy: u64,
    jumps: u64,
}

struct Slot(UnsafeCell<Option<Os>>);
// SAFETY: the simulated process has one OS thread; simulated threads do not
// switch inside these functions.
unsafe impl Sync for Slot {}
static OS: Slot = Slot(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
fn os() -> Option<&'static mut Os> {
    // SAFETY: see Slot.
    unsafe { (*OS.0.get()).as_mut() }
}

pub fn start(spec: OsSpec, input: Vec<u8>) {
    let o = Os {
        files: BTreeMap::from([("/sim/in.jxl".to_string(), input)]),
        fds: BTreeMap::new(),
        rng_r: Rng::new(spec.short_reads.map_or(1, |x| x.0)),
        rng_w: Rng::new(spec.short_writes.map_or(1, |x| x.0)),
        rng_c: Rng::new(spec.clock.1),
        now: 1_000_000_000,
        used: 0,
        st: OsStats::default(),
        stdout: vec![],
        stderr: vec![],
        limit: 3_000_000,
        entropy: 0x1234,
        jumps: 0,
        spec,
    };
    // SAFETY: see Slot.
    unsafe { *OS.0.get() = Some(o) }
}

pub fn stop() -> Os {
    // SAFETY: see Slot.
    let mut o = unsafe { (*OS.0.get()).take().expect("not started") };
    if o.jumps > 0 {
        o.st.fired.insert("clock-jump".into(), o.jumps);
    }
    o
}

fn fail(e: c_int) -> c_int {
    // SAFETY: errno is thread-local.
    unsafe { *libc::__errno_location() = e };
    -1
}

fn lookup(v: &[(u64, Fault)], n: u64) -> Option<(c_int, &'static str, bool)> {
    for (at, f) in v {
        match f {
            Fault::Eintr if *at == n => return Some((libc::EINTR, "eintr", false)),
            Fault::Once(e) if *at == n => return Some((*e, "error", true)),
            Fault::Forever(e) if n >= *at => return Some((*e, "error", true)),
            _ => {}
        }
    }
    None
}

impl Os {
    fn note(&mut self, what: u64, a: u64) {
        self.st.log = crate::rng::mix(self.st.log ^ crate::rng::mix(what ^ a << 8));
    }

    fn fire(&mut self, what: &str) {
        *self.st.fired.entry(what.into()).or_default() += 1;
    }

    fn step(&mut self) {
        self.limit -= 1;
        if self.limit == 0 {
            self.limit = 1000;
            panic!("simulated process makes no progress: 3000000 system calls");
        }
    }

    fn open(&mut self, path: &str, flags: c_int) -> Result<c_int, c_int> {
        self.step();
        let n = self.st.opens;
        self.st.opens += 1;
        self.note(1, n);
        if let Some((e, k, _)) = lookup(&self.spec.opens, n) {
            self.fire(&format!("open-{k}"));
            return Err(e);
        }
        if flags & libc::O_CREAT != 0 {
            if flags & libc::O_EXCL != 0 && self.files.contains_key(path) {
                return Err(libc::EEXIST);
            }
            self.files.entry(path.into()).or_default();
        }
        let Some(f) = self.files.get_mut(path) else { return Err(libc::ENOENT) };
        if flags & libc::O_TRUNC != 0 {
            self.used -= f.len().min(self.used);
            f.clear();
        }
        // A real descriptor, so that the number is valid and unused.
        // SAFETY: constant path.
        let fd = unsafe {
            libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC, 0)
        } as c_int;
        if fd < 0 {
            return Err(libc::EMFILE);
        }
        self.fds.insert(fd, Fd { path: path.into(), pos: 0, append: flags & libc::O_APPEND != 0 });
        Ok(fd)
    }

    fn read(&mut self, fd: c_int, max: usize, at: Option<usize>) -> Result<Vec<u8>, c_int> {
        self.step();
        let n = self.st.reads;
        self.st.reads += 1;
        self.note(2, n ^ (max as u64) << 20);
        if let Some((at, len)) = self.spec.shrink
            && n == at
        {
            if let Some(f) = self.files.get_mut("/sim/in.jxl") {
                f.truncate(len);
            }
            self.fire("input-shrinks");
        }
        if let Some((e, k, hard)) = lookup(&self.spec.reads, n) {
            self.fire(&format!("read-{k}"));
            self.st.hard_read |= hard;
            return Err(e);
        }
        let h = self.fds.get_mut(&fd).unwrap();
        let data = &self.files[&h.path];
        let pos = at.unwrap_or(h.pos);
        let have = data.len().saturating_sub(pos).min(max);
        let k = match self.spec.short_reads {
            Some((_, m)) if have > 1 && self.st.fired.get("short-read").is_none_or(|n| *n < 20000) => have.min(self.rng_r.logsize(m)),
            _ => have,
        };
        let r = data.get(pos..pos + k).unwrap_or(&[]).to_vec();
        if at.is_none() {
            h.pos += k;
        }
        if k < have {
            self.fire("short-read");
        }
        self.st.bytes_read += k as u64;
        Ok(r)
    }

    fn write(&mut self, fd: c_int, data: &[u8], at: Option<usize>) -> Result<usize, c_int> {
        self.step();
        let n = self.st.writes;
        self.st.writes += 1;
        self.note(3, n ^ (data.len() as u64) << 20);
        if let Some((e, k, hard)) = lookup(&self.spec.writes, n) {
            self.fire(&format!("write-{k}"));
            self.st.hard_write |= hard;
            return Err(e);
        }
        let mut k = match self.spec.short_writes {
            Some((_, m)) if data.len() > 1 && self.st.fired.get("short-write").is_none_or(|n| *n < 5000) => data.len().min(self.rng_w.logsize(m)),
            _ => data.len(),
        };
        let h = self.fds.get_mut(&fd).unwrap();
        let f = self.files.get_mut(&h.path).unwrap();
        let pos = at.unwrap_or(if h.append { f.len() } else { h.pos });
        let grow = (pos + k).saturating_sub(f.len());
        let mut full = false;
        if let Some(d) = self.spec.disk
            && self.used + grow > d
        {
            let room = d - self.used.min(d);
            k = k - (grow - room).min(k);
            full = true;
        }
        if full && k == 0 && !data.is_empty() {
            self.fire("disk-full");
            self.st.hard_write = true;
            return Err(libc::ENOSPC);
        }
        self.used += (pos + k).saturating_sub(f.len());
        if f.len() < pos + k {
            f.resize(pos + k, 0);
        }
        f[pos..pos + k].copy_from_slice(&data[..k]);
        if at.is_none() {
            h.pos = pos + k;
        }
        if k < data.len() {
            self.fire(if full { "torn-write" } else { "short-write" });
        }
        self.st.bytes_written += k as u64;
        Ok(k)
    }

    fn seek(&mut self, fd: c_int, off: i64, whence: c_int) -> Result<i64, c_int> {
        self.step();
        let n = self.st.seeks;
        self.st.seeks += 1;
        self.note(4, n ^ (off as u64) << 20);
        if let Some((e, k, _)) = lookup(&self.spec.seeks, n) {
            self.fire(&format!("seek-{k}"));
            return Err(e);
        }
        let h = self.fds.get_mut(&fd).unwrap();
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => h.pos as i64,
            libc::SEEK_END => self.files[&h.path].len() as i64,
            _ => return Err(libc::EINVAL),
        };
        let p = base.checked_add(off).filter(|p| *p >= 0).ok_or(libc::EINVAL)?;
        h.pos = p as usize;
        Ok(p)
    }
}

fn sim_fd(fd: c_int) -> Option<&'static mut Os> {
    os().filter(|o| o.fds.contains_key(&fd))
}

/// # Safety
/// As open(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    // SAFETY: the caller passes a C string.
    let p = unsafe { CStr::from_ptr(path) };
    if let Some(o) = os()
        && let Ok(s) = p.to_str()
        && s.starts_with("/sim/")
    {
        return o.open(s, flags).unwrap_or_else(fail);
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int }
}

/// # Safety
/// As read(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if let Some(o) = sim_fd(fd) {
        return match o.read(fd, n, None) {
            Ok(d) => {
                // SAFETY: the caller provides n bytes and d is no longer.
                unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len()) };
                d.len() as ssize_t
            }
            Err(e) => fail(e) as ssize_t,
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t }
}

/// # Safety
/// As pread(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if let Some(o) = sim_fd(fd) {
        return match o.read(fd, n, Some(off as usize)) {
            Ok(d) => {
                // SAFETY: the caller provides n bytes and d is no longer.
                unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len()) };
                d.len() as ssize_t
            }
            Err(e) => fail(e) as ssize_t,
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t }
}

/// # Safety
/// As readv(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if let Some(o) = sim_fd(fd) {
        // SAFETY: the caller provides cnt vectors.
        let v = unsafe { std::slice::from_raw_parts(iov, cnt as usize) };
        let total = v.iter().map(|x| x.iov_len).sum();
        return match o.read(fd, total, None) {
            Ok(d) => {
                let mut k = 0;
                for x in v {
                    let m = x.iov_len.min(d.len() - k);
                    // SAFETY: each vector has iov_len bytes.
                    unsafe { std::ptr::copy_nonoverlapping(d[k..].as_ptr(), x.iov_base as *mut u8, m) };
                    k += m;
                }
                d.len() as ssize_t
            }
            Err(e) => fail(e) as ssize_t,
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t }
}

fn std_out(fd: c_int, d: &[u8]) -> bool {
    if let Some(o) = os() {
        if fd == 1 {
            o.stdout.extend_from_slice(d);
            return true;
        }
        if fd == 2 {
            o.stderr.extend_from_slice(d);
            return true;
        }
    }
    false
}

/// # Safety
/// As write(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    // SAFETY: the caller provides n bytes.
    let d = unsafe { std::slice::from_raw_parts(buf as *const u8, n) };
    if std_out(fd, d) {
        return n as ssize_t;
    }
    if let Some(o) = sim_fd(fd) {
        return match o.write(fd, d, None) {
            Ok(k) => k as ssize_t,
            Err(e) => fail(e) as ssize_t,
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t }
}

/// # Safety
/// As pwrite(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if let Some(o) = sim_fd(fd) {
        // SAFETY: the caller provides n bytes.
        let d = unsafe { std::slice::from_raw_parts(buf as *const u8, n) };
        return match o.write(fd, d, Some(off as usize)) {
            Ok(k) => k as ssize_t,
            Err(e) => fail(e) as ssize_t,
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t }
}

/// # Safety
/// As writev(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    let sim = sim_fd(fd).is_some() || (os().is_some() && (fd == 1 || fd == 2));
    if sim {
        // SAFETY: the caller provides cnt vectors.
        let v = unsafe { std::slice::from_raw_parts(iov, cnt as usize) };
        let mut d = vec![];
        for x in v {
            if x.iov_len > 0 {
                // SAFETY: each vector has iov_len bytes.
                d.extend_from_slice(unsafe { std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len) });
            }
        }
        if std_out(fd, &d) {
            return d.len() as ssize_t;
        }
        return match sim_fd(fd).unwrap().write(fd, &d, None) {
            Ok(k) => k as ssize_t,
            Err(e) => fail(e) as ssize_t,
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t }
}

/// # Safety
/// As lseek(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Some(o) = sim_fd(fd) {
        return o.seek(fd, off, whence).unwrap_or_else(|e| fail(e) as i64);
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_lseek, fd, off, whence) as i64 }
}

/// # Safety
/// As close(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(o) = sim_fd(fd) {
        o.fds.remove(&fd);
        o.note(5, 0);
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}

fn sync_call(fd: c_int, nr: c_long) -> c_int {
    if let Some(o) = sim_fd(fd) {
        o.st.syncs += 1;
        if let Some((e, _, true)) = lookup(&o.spec.writes, o.st.writes) {
            return fail(e);
        }
        return 0;
    }
    // SAFETY: no memory involved.
    unsafe { libc::syscall(nr, fd) as c_int }
}

/// # Safety
/// As fsync(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_call(fd, libc::SYS_fsync)
}

/// # Safety
/// As fdatasync(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_call(fd, libc::SYS_fdatasync)
}

/// # Safety
/// As ftruncate(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Some(o) = sim_fd(fd) {
        let p = o.fds[&fd].path.clone();
        o.files.get_mut(&p).unwrap().resize(len as usize, 0);
        return 0;
    }
    // SAFETY: no memory involved.
    unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int }
}

/// # Safety
/// As rename(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    // SAFETY: the caller passes C strings.
    let (x, y) = unsafe { (CStr::from_ptr(a), CStr::from_ptr(b)) };
    if let Some(o) = os()
        && let (Ok(x), Ok(y)) = (x.to_str(), y.to_str())
        && x.starts_with("/sim/")
    {
        return match o.files.remove(x) {
            Some(d) => {
                o.files.insert(y.into(), d);
                0
            }
            None => fail(libc::ENOENT),
        };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_rename, a, b) as c_int }
}

/// # Safety
/// As unlink(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    // SAFETY: the caller passes a C string.
    let x = unsafe { CStr::from_ptr(a) };
    if let Some(o) = os()
        && let Ok(x) = x.to_str()
        && x.starts_with("/sim/")
    {
        return if o.files.remove(x).is_some() { 0 } else { fail(libc::ENOENT) };
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_unlink, a) as c_int }
}

/// # Safety
/// As clock_gettime(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(o) = os() {
        o.st.clock_reads += 1;
        let jump = o.spec.clock.1 != 0 && o.rng_c.chance(1, 3);
        if jump {
            // Wall clocks step both ways, monotonic clocks only stall or leap.
            let d = o.rng_c.logsize(1 << 46) as u64;
            if id == libc::CLOCK_REALTIME && o.rng_c.chance(1, 2) {
                o.now = o.now.saturating_sub(d);
            } else if o.rng_c.chance(1, 2) {
                o.now += d;
            }
            // No allocation here: the allocator reads the clock.
            o.jumps += 1;
        } else {
            o.now += o.spec.clock.0;
        }
        // SAFETY: the caller provides a timespec.
        unsafe {
            (*ts).tv_sec = (o.now / 1_000_000_000) as i64;
            (*ts).tv_nsec = (o.now % 1_000_000_000) as i64;
        }
        return 0;
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int }
}

/// # Safety
/// As getrandom(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if let Some(o) = os() {
        for i in 0..len {
            o.entropy = crate::rng::mix(o.entropy);
            // SAFETY: the caller provides `len` writable bytes.
            unsafe { *buf.add(i) = o.entropy as u8 };
        }
        return len as isize;
    }
    // SAFETY: passed on unchanged.
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize }
}
