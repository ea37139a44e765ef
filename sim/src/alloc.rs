//! Counting, limiting and failing global allocator. All state is per OS
//! thread; a simulated run lives on exactly one OS thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    // Fault injection: allocations of at least FAIL_MIN bytes are numbered, and
    // number FAIL_AT (0-based) and the FAIL_RUN - 1 following ones fail.
    static FAIL_MIN: Cell<usize> = const { Cell::new(usize::MAX) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAIL_RUN: Cell<u64> = const { Cell::new(0) };
    static EPOCH: Cell<u64> = const { Cell::new(1) };
    static BIG: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static JUNK: Cell<u8> = const { Cell::new(0) };
    static OVERRUN: Cell<usize> = const { Cell::new(usize::MAX) };
    // The places that ask for the numbered allocations, while they are collected.
    static SITES: std::cell::RefCell<Option<Vec<u64>>> = const { std::cell::RefCell::new(None) };
}

/// What precedes every block: whether it is counted, and in which run.
const UNCOUNTED: u64 = 0;

fn prefix(l: &Layout) -> usize {
    l.align().max(16)
}

fn whole(l: &Layout, size: usize) -> Layout {
    // SAFETY: the alignment is unchanged, sizes are far from the limits.
    unsafe { Layout::from_size_align_unchecked(size + prefix(l) + ZONE, prefix(l)) }
}

/// What follows every block, and must stay as it is.
const ZONE: usize = 16;
const ZONE_BYTE: u8 = 0xc3;

unsafe fn write_zone(p: *mut u8, size: usize) {
    unsafe { std::ptr::write_bytes(p.add(size), ZONE_BYTE, ZONE) }
}

unsafe fn check_zone(p: *mut u8, size: usize) {
    // SAFETY: the zone belongs to the block.
    let z = unsafe { std::slice::from_raw_parts(p.add(size), ZONE) };
    if z != [ZONE_BYTE; ZONE] && OVERRUN.get() == usize::MAX {
        OVERRUN.set(size);
    }
}

/// The size of the first block that was written past its end.
pub fn overrun() -> Option<usize> {
    let s = OVERRUN.replace(usize::MAX);
    (s != usize::MAX).then_some(s)
}

/// What uninitialised and freed memory of the decoder holds.
pub fn set_junk(seed: u64) {
    let kinds = [0u8, 0xff, 0x7f, 0x01, 0x80, 0x3f, 0xa5, 0x42];
    JUNK.set(kinds[(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61) as usize]);
}

/// Of larger blocks, as much at either end.
const JUNK_MAX: usize = 64 << 10;

unsafe fn junk(p: *mut u8, from: usize, size: usize) {
    let n = size - from;
    unsafe {
        if n <= 2 * JUNK_MAX {
            std::ptr::write_bytes(p.add(from), JUNK.get(), n);
        } else {
            std::ptr::write_bytes(p.add(from), JUNK.get(), JUNK_MAX);
            std::ptr::write_bytes(p.add(size - JUNK_MAX), JUNK.get(), JUNK_MAX);
        }
    }
}

fn grow(size: usize) -> u64 {
    if !ON.get() {
        return UNCOUNTED;
    }
    let c = CUR.get() + size as isize;
    CUR.set(c);
    if c > PEAK.get() {
        PEAK.set(c);
    }
    COUNT.set(COUNT.get() + 1);
    if size > LARGEST.get() {
        LARGEST.set(size);
    }
    EPOCH.get()
}

fn shrink(tag: u64, size: usize) {
    if tag != UNCOUNTED && tag == EPOCH.get() {
        CUR.set(CUR.get() - size as isize);
    }
}

fn must_fail(size: usize) -> bool {
    if !ON.get() || size < FAIL_MIN.get() {
        return false;
    }
    let n = BIG.get();
    BIG.set(n + 1);
    let at = FAIL_AT.get();
    if at == u64::MAX {
        note_site();
    }
    if n >= at && n - at < FAIL_RUN.get() {
        FAILED.set(FAILED.get() + 1);
        failed_here(size);
        return true;
    }
    false
}

const SITES_MAX: usize = 6000;

fn note_site() {
    let on = pause();
    SITES.with(|s| {
        if let Ok(mut s) = s.try_borrow_mut()
            && let Some(v) = &mut *s
            && v.len() < SITES_MAX
        {
            let (mut h, mut n) = (0u64, 0);
            // SAFETY: a simulated run lives on one OS thread.
            unsafe {
                backtrace::trace_unsynchronized(|f| {
                    h = (h ^ f.ip() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
                    n += 1;
                    n < 14
                });
            }
            v.push(h);
        }
    });
    resume(on);
}

/// Collects where the numbered allocations are asked for, as long as none is to fail.
pub fn collect_sites() {
    SITES.with(|s| *s.borrow_mut() = Some(vec![]));
}
pub fn take_sites() -> Vec<u64> {
    SITES.with(|s| s.borrow_mut().take().unwrap_or_default())
}

/// Where the last refused allocation is noted (its size, then the place in the
/// decoder that asked for it), so that the parent of a process that could not
/// go on without it can tell.
static NOTE: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

pub fn note_failures_at(p: *mut u8) {
    NOTE.store(p, std::sync::atomic::Ordering::Relaxed);
}

const NOTE_FRAMES: usize = 100;

fn failed_here(size: usize) {
    let p = NOTE.load(std::sync::atomic::Ordering::Relaxed) as *mut u64;
    if p.is_null() {
        return;
    }
    let on = pause();
    let mut n = 0;
    // SAFETY: the page is shared and lives as long as the process, and there
    // is one thread.
    unsafe {
        p.write_volatile(size as u64);
        p.add(1).write_volatile(0);
        if size >= 4096 && FAILED.get() <= 8 {
            backtrace::trace_unsynchronized(|f| {
                p.add(2 + n).write_volatile(f.ip() as u64);
                n += 1;
                n < NOTE_FRAMES
            });
            p.add(1).write_volatile(n as u64);
        }
    }
    resume(on);
}

/// What was noted: the size, and the innermost place in the decoder, as
/// `file:line`.
pub fn read_note(p: *const u8) -> (u64, String) {
    let p = p as *const u64;
    // SAFETY: a page written as above.
    let (size, ips) = unsafe {
        let n = (p.add(1).read_volatile() as usize).min(NOTE_FRAMES);
        (p.read_volatile(), (0..n).map(|i| p.add(2 + i).read_volatile()).collect::<Vec<_>>())
    };
    let mut at = String::new();
    for ip in ips {
        backtrace::resolve((ip.wrapping_sub(1)) as *mut _, |s| {
            if at.is_empty()
                && let (Some(f), Some(l)) = (s.filename(), s.lineno())
            {
                let f = f.to_string_lossy();
                if let Some(i) = f.find("jxl/src/")
                    && !f.contains("jxl/src/util/")
                {
                    at = format!("{}:{l}", &f[i..]);
                }
            }
        });
        if !at.is_empty() {
            break;
        }
    }
    (size, at)
}

// SAFETY: defers to System with room for a tag before each block, except that
// some allocations report failure.
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if must_fail(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe {
            let p = tagged(System.alloc(whole(&l, l.size())), &l, l.size());
            if !p.is_null() && ON.get() {
                junk(p, 0, l.size());
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if must_fail(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { tagged(System.alloc_zeroed(whole(&l, l.size())), &l, l.size()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            check_zone(p, l.size());
            if tag(p) != UNCOUNTED && tag(p) == EPOCH.get() {
                junk(p, 0, l.size());
            }
            shrink(tag(p), l.size());
            System.dealloc(p.sub(prefix(&l)), whole(&l, l.size()))
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && unsafe { tag(p) } != UNCOUNTED && must_fail(new) {
            return std::ptr::null_mut();
        }
        unsafe {
            check_zone(p, l.size());
            let t = tag(p);
            let q = System.realloc(p.sub(prefix(&l)), whole(&l, l.size()), whole(&l, new).size());
            if q.is_null() {
                return q;
            }
            shrink(t, l.size());
            // What the harness allocated (such as the scheduler's log) stays its own.
            let on = ON.replace(ON.get() && t != UNCOUNTED);
            let q = tagged(q, &l, new);
            if ON.get() && new > l.size() {
                junk(q, l.size(), new);
            }
            ON.set(on);
            q
        }
    }
}

unsafe fn tag(p: *mut u8) -> u64 {
    unsafe { (p.sub(8) as *const u64).read() }
}

unsafe fn tagged(p: *mut u8, l: &Layout, size: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    unsafe {
        let p = p.add(prefix(l));
        (p.sub(8) as *mut u64).write(grow(size));
        write_zone(p, size);
        p
    }
}

/// Restores the previous mode when dropped.
pub struct Mode(bool);
impl Drop for Mode {
    fn drop(&mut self) {
        ON.set(self.0);
    }
}

/// From here on it is the decoder that allocates.
pub fn inside() -> Mode {
    Mode(ON.replace(true))
}
/// From here on it is the harness that allocates.
pub fn outside() -> Mode {
    Mode(ON.replace(false))
}

pub fn start() {
    CUR.set(0);
    PEAK.set(0);
    COUNT.set(0);
    LARGEST.set(0);
    BIG.set(0);
    FAILED.set(0);
    EPOCH.set(EPOCH.get() + 1);
    ON.set(false);
}

pub fn stop() {
    ON.set(false);
    FAIL_MIN.set(usize::MAX);
}

pub fn pause() -> bool {
    ON.replace(false)
}
pub fn resume(on: bool) {
    ON.set(on);
}

pub fn set_fail(min: usize, at: u64, run: u64) {
    BIG.set(0);
    FAILED.set(0);
    FAIL_MIN.set(min);
    FAIL_AT.set(at);
    FAIL_RUN.set(run);
}
pub fn clear_fail() {
    FAIL_MIN.set(usize::MAX);
}

pub fn current() -> isize {
    CUR.get()
}
pub fn peak() -> isize {
    PEAK.get()
}
pub fn reset_peak() {
    PEAK.set(CUR.get());
}
pub fn count() -> u64 {
    COUNT.get()
}
pub fn largest() -> usize {
    LARGEST.get()
}
pub fn reset_largest() {
    LARGEST.set(0);
}
pub fn failed() -> u64 {
    FAILED.get()
}
pub fn big() -> u64 {
    BIG.get()
}
