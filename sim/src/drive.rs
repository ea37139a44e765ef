//! Executes a plan against the real decoder and records what a caller could
//! observe. Runs inside one simulated execution.

use crate::alloc;
use crate::plan::*;
use crate::rng::{hash_bytes, mix};
use crate::runner::{RunKind, RunStats, SimRunner, Stats};
use crate::source::{DynRef, Source, SrcStats};
use jxl::api::states::{Initialized, WithFrameInfo, WithImageInfo};
use jxl::api::{
    JxlBasicInfo, JxlColorProfile, JxlDecoder, JxlDecoderInner, JxlFrameHeader, JxlOutputBuffer,
    JxlParallelRunner, JxlPixelFormat, ProcessingResult, VisibleFrameInfo,
};
use jxl::error::Error;
use jxl::headers::extra_channels::ExtraChannel;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct BufOut {
    pub rows: usize,
    pub bytes: usize,
    pub hash: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FrameOut {
    pub name: String,
    pub duration: Option<u64>,
    pub size: (usize, usize),
    /// None: the caller skipped the frame.
    pub bufs: Option<Vec<BufOut>>,
    pub fmt: Fmt,
    /// Hash of the pixel format and output profile the decoder reports.
    pub as_: u64,
}

/// What an earlier attempt (before a restart) delivered.
#[derive(Clone, Debug)]
pub struct Attempt {
    pub frames: Vec<(usize, FrameOut)>,
    pub end: End,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The decoder reported that there are no more frames.
    Done,
    /// It asks for input although everything was delivered.
    NeedMore(Phase),
    Err(Phase, String),
    Abandoned,
    /// The run was stopped because the image would not fit in the harness.
    TooBig,
    Panic(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    Header,
    Between,
    InFrame,
    Finished,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scanned {
    pub index: usize,
    pub ticks: u32,
    pub ms: u64,
    pub offset: u64,
    pub last: bool,
    pub key: bool,
    pub start: u64,
    pub skip: usize,
    pub name: String,
}

pub fn scanned(v: &VisibleFrameInfo) -> Scanned {
    Scanned {
        index: v.index,
        ticks: v.duration_ticks,
        ms: v.duration_ms.to_bits(),
        offset: v.file_offset,
        last: v.is_last,
        key: v.is_keyframe,
        start: v.seek_target.decode_start_file_offset,
        skip: v.seek_target.visible_frames_to_skip,
        name: v.name.clone(),
    }
}

#[derive(Clone, Debug)]
pub struct FlushRec {
    pub new_pixels: bool,
    pub delivered: usize,
    pub frame: usize,
    pub hash: u64,
    pub changed: bool,
    pub phase: Phase,
    /// The last call used up all the data there was.
    pub starved: bool,
    /// Memory in use afterwards.
    pub mem: isize,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub info: Option<String>,
    /// Hash of the embedded and output profiles.
    pub profiles: Option<(u64, u64)>,
    pub default_format: Option<String>,
    /// (visible frame index, what was delivered), in order of delivery.
    pub frames: Vec<(usize, FrameOut)>,
    pub end: End,
    pub earlier: Vec<Attempt>,
    pub file_length: Option<u64>,
    pub scanned: Vec<Scanned>,
    pub flushes: Vec<FlushRec>,
    /// What the run itself found wrong, as (class, message).
    pub bad: Vec<(String, String)>,
    pub calls: u64,
    pub drain_calls: u64,
    /// Calls that asked for more input although the source held the whole rest of the file.
    pub needless: u64,
    pub min_hint: Option<usize>,
    pub errors_seen: Vec<String>,
    /// How many frames were complete at the first error that was not the input's.
    pub frames_at_error: Option<usize>,
    pub src: SrcStats,
    pub run: RunStats,
    pub mem_peak: isize,
    pub mem_end: isize,
    /// Largest (peak - 64 * delivered) while headers were being read.
    pub mem_header: isize,
    /// Largest (peak - 64 * delivered) afterwards, and the largest frame or
    /// image area seen (in samples, all channels).
    pub mem_frames: isize,
    pub max_samples: usize,
    /// Memory in use after each completed frame.
    pub mem_after_frame: Vec<isize>,
    pub hint_over: u64,
    pub zero_hints: u64,
    pub hint_feeds: u64,
    /// Fingerprints of the states the decoder was suspended in.
    pub states: Vec<u64>,
    pub trace_hash: u64,
    pub decisions: u64,
    pub max_runnable: usize,
    pub largest_alloc: usize,
    pub alloc_failed: u64,
    pub alloc_big: u64,
    pub points: u64,
    pub seeks: u64,
    /// Seeks a sensible player adds to those of the plan.
    pub reseeks: u64,
    /// For each entry of `frames`, the offset its playback resumed at.
    pub bases: Vec<u64>,
    /// The last seek: its target and the offset decoding resumed at.
    pub seek_last: Option<(usize, u64)>,
    /// The visible frame the run was at when it ended.
    pub at_frame: usize,
    pub skipped: u64,
    pub fmt_changes: u64,
    pub restarts: u64,
    pub flush_errs: u64,
    /// Hash over every observable event, for the determinism proof.
    pub log: u64,
    pub log_n: u64,
    pub log_text: Vec<String>,
}

impl Outcome {
    pub fn new() -> Self {
        Outcome {
            info: None,
            profiles: None,
            default_format: None,
            frames: vec![],
            end: End::Done,
            earlier: vec![],
            file_length: None,
            scanned: vec![],
            flushes: vec![],
            bad: vec![],
            calls: 0,
            drain_calls: 0,
            needless: 0,
            min_hint: None,
            errors_seen: vec![],
            frames_at_error: None,
            src: SrcStats::default(),
            run: RunStats::default(),
            mem_peak: 0,
            mem_end: 0,
            mem_header: 0,
            mem_frames: 0,
            max_samples: 0,
            mem_after_frame: vec![],
            hint_over: 0,
            zero_hints: 0,
            hint_feeds: 0,
            states: vec![],
            trace_hash: 0,
            decisions: 0,
            max_runnable: 0,
            largest_alloc: 0,
            alloc_failed: 0,
            alloc_big: 0,
            points: 0,
            seeks: 0,
            reseeks: 0,
            bases: vec![],
            seek_last: None,
            at_frame: 0,
            skipped: 0,
            fmt_changes: 0,
            restarts: 0,
            flush_errs: 0,
            log: 0,
            log_n: 0,
            log_text: vec![],
        }
    }
}

/// One output buffer with guard bytes before, between and after its rows.
pub struct Canvas {
    mem: Vec<u64>,
    off: usize,
    pub rows: usize,
    pub bytes: usize,
    pub stride: usize,
    pub fill: u8,
}

const GUARD: u8 = 0x5a;
/// Images with more samples than this are not decoded.
/// Memory allowed per byte delivered while headers are parsed, and per byte
/// and per sample afterwards.
const HEADER_BYTE: usize = 32;
const FRAME_BYTE: usize = 64;
const FRAME_SAMPLE: usize = 32;
const MAX_SAMPLES: usize = 48 << 20;

impl Canvas {
    pub fn new(rows: usize, bytes: usize, pad: usize, fill: u8) -> Self {
        // Row starts stay aligned to 4 bytes, as the API requires.
        let pad = pad & !3;
        let stride = (bytes + 3) / 4 * 4 + pad;
        let off = 64 + pad;
        let len = off + stride * rows + 64;
        let mut c = Canvas {
            mem: vec![u64::from_ne_bytes([GUARD; 8]); len / 8 + 1],
            off,
            rows,
            bytes,
            stride,
            fill,
        };
        for y in 0..rows {
            c.row_mut(y).fill(fill);
        }
        c
    }
    fn raw(&self) -> &[u8] {
        let n = self.mem.len() * 8;
        // SAFETY: reinterprets initialised u64s as bytes.
        unsafe { std::slice::from_raw_parts(self.mem.as_ptr() as *const u8, n) }
    }
    fn raw_mut(&mut self) -> &mut [u8] {
        let n = self.mem.len() * 8;
        // SAFETY: as above, and the borrow is exclusive.
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, n) }
    }
    pub fn row(&self, y: usize) -> &[u8] {
        let s = self.off + y * self.stride;
        &self.raw()[s..s + self.bytes]
    }
    pub fn row_mut(&mut self, y: usize) -> &mut [u8] {
        let s = self.off + y * self.stride;
        let b = self.bytes;
        &mut self.raw_mut()[s..s + b]
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0x1234;
        for y in 0..self.rows {
            h = hash_bytes(h, self.row(y));
        }
        h
    }
    /// First guard byte that changed.
    pub fn guard_violation(&self) -> Option<usize> {
        let raw = self.raw();
        let mut pos = 0;
        for y in 0..=self.rows {
            let end = if y < self.rows {
                self.off + y * self.stride
            } else {
                raw.len()
            };
            if let Some(i) = raw[pos..end].iter().position(|b| *b != GUARD) {
                return Some(pos + i);
            }
            pos = end + self.bytes;
        }
        None
    }
    pub fn output(&mut self) -> JxlOutputBuffer<'_> {
        let (off, rows, bytes, stride) = (self.off, self.rows, self.bytes, self.stride);
        JxlOutputBuffer::new_with_stride(&mut self.raw_mut()[off..], rows, bytes, stride)
    }
    pub fn count_fill(&self) -> usize {
        (0..self.rows)
            .map(|y| self.row(y).iter().filter(|b| **b == self.fill).count())
            .sum()
    }
}

enum Dec {
    Init(JxlDecoder<Initialized>),
    Info(JxlDecoder<WithImageInfo>),
    Frame(JxlDecoder<WithFrameInfo>),
    Inner(Box<JxlDecoderInner>),
    Gone,
}

#[derive(Debug)]
enum Step {
    Advanced,
    NeedMore(usize),
    Failed(String, bool),
}

pub struct Driver {
    plan: Plan,
    data: Arc<Vec<u8>>,
    dec: Dec,
    phase: Phase,
    src: Source,
    fmt: Fmt,
    default_format: Option<JxlPixelFormat>,
    px: Option<JxlPixelFormat>,
    alpha_channel: Option<usize>,
    size: (usize, usize),
    bufs: Vec<Canvas>,
    skip: bool,
    /// The image is too large for buffers: no pixels are asked for.
    bare: bool,
    next_index: usize,
    /// Where decoding resumed at the last seek.
    base: u64,
    header: Option<JxlFrameHeader>,
    /// The next frame is the preview image.
    preview_pending: bool,
    preview_size: (usize, usize),
    targets: Vec<VisibleFrameInfo>,
    scanned_pass: bool,
    flushed_since_change: u32,
    flushed_hash: Option<u64>,
    pub out: Outcome,
    rs: Stats,
    last_hint: usize,
    max_mark: usize,
    starved: bool,
    abandoned: bool,
    in_drain: bool,
    keep_text: bool,
    pub keep_pixels: Option<Vec<Vec<u8>>>,
}

/// The index under which the preview image is recorded.
pub const PREVIEW: usize = 1 << 30;

pub fn info_string(i: &JxlBasicInfo) -> String {
    format!(
        "{:?} {:?} {:?} {:?} {:?} {} {} {} {} {} {:?}",
        i.size,
        i.bit_depth,
        i.orientation,
        i.extra_channels,
        i.animation,
        i.uses_original_profile,
        i.tone_mapping.intensity_target,
        i.tone_mapping.min_nits,
        i.tone_mapping.relative_to_max_display,
        i.tone_mapping.linear_below,
        i.preview_size
    )
}

pub fn profile_hash(p: &JxlColorProfile) -> u64 {
    match p {
        JxlColorProfile::Icc(b) => hash_bytes(1, b),
        JxlColorProfile::Simple(e) => hash_bytes(2, format!("{e:?}").as_bytes()),
    }
}

fn text(e: &Error) -> String {
    let _o = alloc::outside();
    e.to_string()
}

impl Driver {
    pub fn new(plan: Plan, data: Arc<Vec<u8>>) -> Self {
        let src = Source::new(data.clone(), &plan.src);
        let mut d = Driver {
            fmt: plan.fmt,
            dec: Dec::Gone,
            phase: Phase::Header,
            src,
            default_format: None,
            px: None,
            alpha_channel: None,
            size: (0, 0),
            bufs: vec![],
            skip: false,
            bare: false,
            next_index: 0,
            base: 0,
            header: None,
            preview_pending: false,
            preview_size: (0, 0),
            targets: vec![],
            scanned_pass: false,
            flushed_since_change: 0,
            flushed_hash: None,
            out: Outcome::new(),
            rs: Default::default(),
            last_hint: 0,
            max_mark: 0,
            starved: false,
            abandoned: false,
            in_drain: false,
            keep_text: std::env::var_os("JXLSIM_LOG").is_some(),
            keep_pixels: None,
            plan,
            data,
        };
        d.fresh_decoder();
        d
    }

    fn fresh_decoder(&mut self) {
        let o = self.plan.opts.make();
        let _i = alloc::inside();
        self.dec = match self.plan.api {
            Api::Typed => Dec::Init(JxlDecoder::<Initialized>::new(o)),
            Api::Inner => Dec::Inner(Box::new(JxlDecoderInner::new(o))),
        };
        self.phase = Phase::Header;
        self.skip = false;
        self.bare = false;
        self.next_index = 0;
        self.base = 0;
        self.header = None;
        self.bufs.clear();
        self.px = None;
        self.default_format = None;
    }

    fn log(&mut self, what: impl FnOnce() -> String) {
        let s = what();
        self.out.log = mix(hash_bytes(self.out.log, s.as_bytes()));
        self.out.log_n += 1;
        if self.keep_text {
            eprintln!("{s}");
        }
        if self.out.log_text.len() < 400 {
            self.out.log_text.push(s);
        }
    }

    fn bad(&mut self, class: &str, msg: String) {
        self.log(|| format!("BAD {class}: {msg}"));
        if self.out.bad.len() < 8 {
            self.out.bad.push((class.into(), msg));
        }
    }

    fn make_bufs(&mut self) {
        self.bufs.clear();
        if self.bare {
            return;
        }
        let px = self.px.clone().unwrap();
        let (w, h) = if self.preview_pending { self.preview_size } else { self.size };
        if let Some(c) = &px.color_data_format {
            let b = c.bytes_per_sample() * px.color_type.samples_per_pixel() * w;
            self.bufs
                .push(Canvas::new(h, b, self.plan.pad, self.plan.fill));
        }
        for e in px.extra_channel_format.iter().flatten() {
            let b = e.bytes_per_sample() * w;
            self.bufs
                .push(Canvas::new(h, b, self.plan.pad, self.plan.fill));
        }
        self.flushed_since_change = 0;
        self.flushed_hash = None;
    }

    fn drop_bufs(&mut self) {
        self.flushed_hash = None;
        self.bufs.clear();
    }

    fn check_guards(&mut self, when: &str) {
        let mut hit = None;
        for (i, c) in self.bufs.iter().enumerate() {
            if let Some(p) = c.guard_violation() {
                hit = Some((i, p));
                break;
            }
        }
        if let Some((i, p)) = hit {
            self.bad(
                "guard",
                format!("{when}: byte {p} outside the rows of output buffer {i} was written"),
            );
        }
    }

    fn bufs_hash(&self) -> u64 {
        self.bufs.iter().fold(1, |h, c| mix(h ^ c.hash()))
    }

    fn step(&mut self) -> Step {
        if matches!(self.dec, Dec::Gone) {
            return Step::Failed("no decoder".into(), false);
        }
        // What the frames between here and the last seek target saved is all
        // there is: a player goes back further if the next frame says so.
        if self.phase == Phase::Between
            && self.base > 0
            && let Some(t) = self.targets.get(self.next_index)
            && t.seek_target.decode_start_file_offset < self.base
        {
            let skip = self.skip;
            self.seek(self.next_index, false);
            self.skip = skip;
            self.out.reseeks += 1;
        }
        self.out.calls += 1;
        self.flushed_since_change = 0;
        if self.in_drain {
            self.out.drain_calls += 1;
        }
        {
            let mut r = self.rs.lock().unwrap();
            r.task_err_in_call = false;
            r.fault_in_call = false;
        }
        let mut runner = SimRunner {
            spec: self.plan.runner,
            st: self.rs.clone(),
        };
        let no_runner = self.plan.runner.kind == RunKind::None;
        let phase = self.phase;
        let skip = self.skip || self.bare;
        let dec = std::mem::replace(&mut self.dec, Dec::Gone);
        let mut outs: Vec<JxlOutputBuffer> = vec![];
        if phase == Phase::InFrame && !skip {
            outs = self.bufs.iter_mut().map(|c| c.output()).collect();
        }
        let src = &mut self.src;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let rn: Option<&mut dyn JxlParallelRunner> =
                if no_runner { None } else { Some(&mut runner) };
            src.with(|inp| {
                let _i = alloc::inside();
                let mut inp = DynRef(inp.as_input());
                macro_rules! fin {
                    ($r:expr, $ok:path, $fb:path) => {
                        match $r {
                            Ok(ProcessingResult::Complete { result }) => {
                                ($ok(result), Step::Advanced)
                            }
                            Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                                ($fb(fallback), Step::NeedMore(size_hint))
                            }
                            Err(e) => {
                                let io = matches!(e, Error::IOError(_));
                                (Dec::Gone, Step::Failed(text(&e), io))
                            }
                        }
                    };
                }
                match dec {
                    Dec::Init(d) => fin!(d.process(&mut inp, rn), Dec::Info, Dec::Init),
                    Dec::Info(d) => fin!(d.process(&mut inp, rn), Dec::Frame, Dec::Info),
                    Dec::Frame(d) if skip => {
                        fin!(d.skip_frame(&mut inp), Dec::Info, Dec::Frame)
                    }
                    Dec::Frame(d) => fin!(
                        d.process(&mut inp, &mut outs, rn),
                        Dec::Info,
                        Dec::Frame
                    ),
                    Dec::Inner(mut d) => {
                        let b = if phase == Phase::InFrame && !skip {
                            Some(&mut outs[..])
                        } else {
                            None
                        };
                        let r = d.process(&mut inp, b, rn);
                        match r {
                            Ok(ProcessingResult::Complete { .. }) => {
                                (Dec::Inner(d), Step::Advanced)
                            }
                            Ok(ProcessingResult::NeedsMoreInput { size_hint, .. }) => {
                                (Dec::Inner(d), Step::NeedMore(size_hint))
                            }
                            Err(e) => {
                                let io = matches!(e, Error::IOError(_));
                                (Dec::Inner(d), Step::Failed(text(&e), io))
                            }
                        }
                    }
                    Dec::Gone => unreachable!("step without a decoder"),
                }
            })
        }));
        drop(outs);
        let (dec, st) = match res {
            Ok(x) => x,
            Err(_) => {
                let m = crate::exec::take_panic().unwrap_or_default();
                self.out.end = End::Panic(crate::exec::clean_msg(&m));
                (Dec::Gone, Step::Failed("panic".into(), false))
            }
        };
        self.dec = dec;
        let (task_panic, task_err, fault, live) = {
            let mut r = self.rs.lock().unwrap();
            (r.panic.take(), r.task_err_in_call, r.fault_in_call, r.live)
        };
        if live != 0 {
            self.bad("task-outlives-call", format!("{live} tasks still running after the call"));
        }
        if let Some(m) = task_panic {
            self.out.end = End::Panic(crate::exec::clean_msg(&m));
        }
        if (task_err || fault) && !matches!(st, Step::Failed(..)) {
            self.bad(
                "lost-task-error",
                format!("a task or the pool failed, but the decoder returned {st:?} in {phase:?}"),
            );
        }
        let (pos, mark) = (self.src.position(), self.src.delivered());
        self.max_mark = self.max_mark.max(mark);
        let peak = alloc::peak();
        if phase == Phase::Header {
            let net = peak - (HEADER_BYTE * self.max_mark) as isize;
            self.out.mem_header = self.out.mem_header.max(net);
        } else {
            let n = self.out.max_samples.max(self.plan.opts.sample_limit.unwrap_or(0));
            let allowed = FRAME_SAMPLE.saturating_mul(n).saturating_add(FRAME_BYTE * self.max_mark).min(1 << 60);
            let net = peak - allowed as isize;
            self.out.mem_frames = self.out.mem_frames.max(net);
        }
        self.log(|| format!("call {phase:?} skip={skip} -> {st:?} pos={pos} mark={mark}"));
        self.check_guards("after a decoder call");
        self.starved = matches!(st, Step::NeedMore(_));
        match &st {
            Step::Advanced => self.advanced(),
            Step::NeedMore(h) => {
                let h = *h;
                self.last_hint = h;
                if self.src.all_delivered() && self.plan.src.faults.is_empty() && self.plan.src.dead_after.is_none() {
                    self.out.needless += 1;
                }
                self.out.min_hint = Some(self.out.min_hint.map_or(h, |m| m.min(h)));
                if self.out.states.len() < 200 {
                    let st = mix(pos ^ mix(self.phase as u64 ^ mix(self.next_index as u64)) ^ skip as u64);
                    self.out.states.push(st);
                }
            }
            Step::Failed(e, io) => {
                let e = e.clone();
                if !io && self.out.frames_at_error.is_none() {
                    self.out.frames_at_error = Some(self.out.frames.len());
                }
                if self.out.errors_seen.len() < 16 {
                    self.out.errors_seen.push(e);
                }
            }
        }
        st
    }

    fn info<T>(&self, a: impl Fn(&JxlDecoder<WithImageInfo>) -> T, b: impl Fn(&JxlDecoderInner) -> T) -> Option<T> {
        match &self.dec {
            Dec::Info(d) => Some(a(d)),
            Dec::Inner(d) => Some(b(d)),
            _ => None,
        }
    }

    fn advanced(&mut self) {
        match self.phase {
            Phase::Header => {
                let i = self
                    .info(|d| d.basic_info().clone(), |d| d.basic_info().unwrap().clone())
                    .unwrap();
                let s = info_string(&i);
                let e = self
                    .info(
                        |d| profile_hash(d.embedded_color_profile()),
                        |d| profile_hash(d.embedded_color_profile().unwrap()),
                    )
                    .unwrap();
                let o = self
                    .info(
                        |d| profile_hash(d.output_color_profile()),
                        |d| profile_hash(d.output_color_profile().unwrap()),
                    )
                    .unwrap();
                let f = self
                    .info(
                        |d| d.current_pixel_format().clone(),
                        |d| d.current_pixel_format().unwrap().clone(),
                    )
                    .unwrap();
                self.log(|| format!("info {s} {e:x} {o:x} {f:?}"));
                self.out.info = Some(s);
                self.out.profiles = Some((e, o));
                self.out.default_format = Some(format!("{f:?}"));
                self.default_format = Some(f);
                self.size = i.size;
                self.alpha_channel = i
                    .extra_channels
                    .iter()
                    .position(|c| c.ec_type == ExtraChannel::Alpha);
                self.preview_pending = i.preview_size.is_some()
                    && !self.plan.opts.skip_preview;
                if let Some((w, h)) = i.preview_size {
                    // As for the image itself, but basic info has no oriented size.
                    // (`adjust_orientation` has no effect on that size either.)
                    let t = i.orientation.is_transposing();
                    self.preview_size = if t { (h, w) } else { (w, h) };
                }
                self.phase = Phase::Between;
                self.next_index = 0;
                let samples = i.size.0.saturating_mul(i.size.1).saturating_mul(3 + i.extra_channels.len());
                self.out.max_samples = self.out.max_samples.max(samples);
                if samples > MAX_SAMPLES && self.plan.scenario.starts_with("huge") {
                    self.bare = true;
                    self.set_format();
                } else if samples > MAX_SAMPLES {
                    self.log(|| format!("too big: {samples}"));
                    self.out.end = End::TooBig;
                    self.dec = Dec::Gone;
                } else {
                    self.set_format();
                }
            }
            Phase::Between => {
                let h = match &self.dec {
                    Dec::Frame(d) => d.frame_header(),
                    Dec::Inner(d) => match d.frame_header() {
                        Some(h) => h,
                        None => {
                            self.bad("no-header", "frame stage reached without a header".into());
                            return;
                        }
                    },
                    _ => unreachable!(),
                };
                self.log(|| format!("frame {:?} {:?} {:?}", h.name, h.duration, h.size));
                let samples = h.size.0.saturating_mul(h.size.1).saturating_mul(8);
                self.out.max_samples = self.out.max_samples.max(samples);
                let expected = if self.preview_pending { self.preview_size } else { self.size };
                if h.size != expected {
                    self.bad("frame-size", format!("frame header reports size {:?} instead of {expected:?}", h.size));
                }
                self.header = Some(h);
                self.phase = Phase::InFrame;
            }
            Phase::InFrame => {
                let h = self.header.take().unwrap();
                let bufs = if self.skip || self.bare || self.plan.opts.scan_only {
                    None
                } else {
                    Some(
                        self.bufs
                            .iter()
                            .map(|c| BufOut {
                                rows: c.rows,
                                bytes: c.bytes,
                                hash: c.hash(),
                            })
                            .collect::<Vec<_>>(),
                    )
                };
                if let Some(dir) = std::env::var_os("JXLSIM_DUMP")
                    && bufs.is_some()
                {
                    // For debugging: every buffer of every frame of every execution.
                    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    for (i, c) in self.bufs.iter().enumerate() {
                        let v: Vec<u8> = (0..c.rows).flat_map(|y| c.row(y).to_vec()).collect();
                        let path = std::path::Path::new(&dir).join(format!("{n:04}-{i}-{}x{}", c.bytes, c.rows));
                        let _ = std::fs::write(path, v);
                    }
                }
                if let Some(k) = &mut self.keep_pixels
                    && bufs.is_some()
                {
                    for c in &self.bufs {
                        let mut v = vec![];
                        for y in 0..c.rows {
                            v.extend_from_slice(c.row(y));
                        }
                        k.push(v);
                    }
                }
                let as_ = self
                    .info(
                        |d| (format!("{:?}", d.current_pixel_format()), profile_hash(d.output_color_profile())),
                        |d| {
                            (
                                format!("{:?}", d.current_pixel_format().unwrap()),
                                profile_hash(d.output_color_profile().unwrap()),
                            )
                        },
                    )
                    .map(|(f, h)| mix(hash_bytes(h, f.as_bytes())))
                    .unwrap();
                let fo = FrameOut {
                    as_,
                    name: h.name.clone(),
                    duration: h.duration.map(|d| d.to_bits()),
                    size: h.size,
                    bufs,
                    fmt: self.fmt,
                };
                self.log(|| format!("done {fo:?}"));
                if self.skip {
                    self.out.skipped += 1;
                }
                let preview = std::mem::take(&mut self.preview_pending);
                self.out.frames.push((if preview { PREVIEW } else { self.next_index }, fo));
                self.out.bases.push(self.base);
                if self.out.mem_after_frame.len() < 4096 {
                    self.out.mem_after_frame.push(alloc::current());
                }
                if !preview {
                    self.next_index += 1;
                }
                self.skip = false;
                self.bufs.clear();
                let more = self
                    .info(|d| d.has_more_frames(), |d| d.has_more_frames())
                    .unwrap();
                if more {
                    self.phase = Phase::Between;
                    self.make_bufs();
                } else {
                    self.phase = Phase::Finished;
                }
                self.note_scanned();
            }
            Phase::Finished => unreachable!(),
        }
    }

    fn note_scanned(&mut self) {
        let v = match &self.dec {
            Dec::Info(d) => d.scanned_frames().to_vec(),
            Dec::Frame(d) => d.scanned_frames().to_vec(),
            Dec::Inner(d) => d.scanned_frames().to_vec(),
            _ => return,
        };
        if v.len() < self.targets.len() {
            return;
        }
        self.out.scanned = v.iter().map(scanned).collect();
        self.targets = v;
    }

    fn set_format(&mut self) {
        let px = pixel_format(
            &self.fmt,
            self.default_format.as_ref().unwrap(),
            self.alpha_channel,
        );
        match &mut self.dec {
            Dec::Info(d) => d.set_pixel_format(px.clone()),
            Dec::Inner(d) => d.set_pixel_format(px.clone()),
            _ => return,
        }
        self.px = Some(px);
        self.make_bufs();
    }

    fn flush(&mut self, bad: Option<BadBuf>) {
        /// Flushes after which nothing new may be reported any more.
        const IDLE: u32 = 2;

        if !matches!(self.phase, Phase::Between | Phase::InFrame) || self.bufs.is_empty() {
            return;
        }
        let before = self.bufs_hash();
        {
            let mut r = self.rs.lock().unwrap();
            r.task_err_in_call = false;
            r.fault_in_call = false;
        }
        let mut runner = SimRunner {
            spec: self.plan.runner,
            st: self.rs.clone(),
        };
        let no_runner = self.plan.runner.kind == RunKind::None;
        let mut small: Vec<Canvas> = vec![];
        let mut outs: Vec<JxlOutputBuffer> = vec![];
        let mut extra;
        match bad {
            None => outs = self.bufs.iter_mut().map(|c| c.output()).collect(),
            Some(BadBuf::Missing) => {}
            Some(BadBuf::Extra) => {
                extra = Canvas::new(1, 4, 0, 0);
                outs = self.bufs.iter_mut().map(|c| c.output()).collect();
                outs.push(extra.output());
            }
            Some(b) => {
                for c in &self.bufs {
                    let (r, w) = match b {
                        BadBuf::FewRows => (c.rows - 1, c.bytes),
                        _ => (c.rows, c.bytes - 1),
                    };
                    if r == 0 || w == 0 {
                        return;
                    }
                    small.push(Canvas::new(r, w, self.plan.pad, self.plan.fill));
                }
                outs = small.iter_mut().map(|c| c.output()).collect();
            }
        }
        let dec = &mut self.dec;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let rn: Option<&mut dyn JxlParallelRunner> =
                if no_runner { None } else { Some(&mut runner) };
            let _i = alloc::inside();
            match dec {
                Dec::Info(d) => Some(d.flush_pixels(&mut outs, rn)),
                Dec::Frame(d) => Some(d.flush_pixels(&mut outs, rn)),
                Dec::Inner(d) => Some(d.flush_pixels(&mut outs, rn)),
                _ => None,
            }
        }));
        drop(outs);
        let tp = self.rs.lock().unwrap().panic.take();
        if let Some(m) = tp {
            self.out.end = End::Panic(crate::exec::clean_msg(&m));
            self.dec = Dec::Gone;
            return;
        }
        if self.rs.lock().unwrap().fault_in_call && matches!(res, Ok(Some(Ok(_)))) {
            self.bad("lost-task-error", "the pool failed, but the flush reports success".into());
        }
        let res = match res {
            Err(_) => {
                let m = crate::exec::take_panic().unwrap_or_default();
                self.out.end = End::Panic(format!("flush: {}", crate::exec::clean_msg(&m)));
                self.dec = Dec::Gone;
                return;
            }
            Ok(None) => return,
            Ok(Some(r)) => r.map_err(|e| e.to_string()),
        };
        let after = self.bufs_hash();
        let mut small_guard = None;
        for c in &small {
            if let Some(p) = c.guard_violation() {
                small_guard = Some(p);
            }
        }
        let delivered = self.src.delivered();
        let phase = self.phase;
        self.log(|| format!("flush {bad:?} {phase:?} -> {res:?} {before:x} {after:x} mark={delivered}"));
        if let Some(p) = small_guard {
            self.bad("guard", format!("flush wrote byte {p} outside a too small buffer"));
        }
        self.check_guards("after a flush");
        match (&res, bad) {
            (Ok(new), None) => {
                if !*new && before != after {
                    self.bad(
                        "flush-false",
                        "flush reported no new pixels but changed the buffers".into(),
                    );
                }
                if !*new && self.flushed_hash.is_some_and(|h| h != after) {
                    self.bad(
                        "flush-missed",
                        "flush reported no new pixels, but the buffers changed since the last one".into(),
                    );
                }
                if self.flushed_since_change > 0 && before != after {
                    self.bad(
                        "flush-more",
                        "a second flush without new data or calls changed the buffers".into(),
                    );
                }
                if *new && self.flushed_since_change >= IDLE {
                    self.bad(
                        "flush-again",
                        format!("{} flushes without new data or calls still report new pixels", self.flushed_since_change + 1),
                    );
                }
                self.flushed_hash = Some(after);
                self.flushed_since_change += 1;
                self.out.flushes.push(FlushRec {
                    new_pixels: *new,
                    delivered,
                    frame: self.next_index,
                    hash: after,
                    changed: before != after,
                    phase: self.phase,
                    starved: self.starved,
                    mem: alloc::current(),
                });
            }
            (Err(e), _) => {
                self.out.flush_errs += 1;
                let e = e.clone();
                if self.out.errors_seen.len() < 16 {
                    self.out.errors_seen.push(e);
                }
            }
            _ => {}
        }
    }

    /// A separate pass over the whole file that only lists its frames.
    fn scan(&mut self) {
        let mut o = self.plan.opts.make();
        o.scan_frames_only = true;
        let mut d = JxlDecoderInner::new(o);
        let data = self.data.clone();
        let mut s: &[u8] = &data;
        let r = catch_unwind(AssertUnwindSafe(|| {
            for _ in 0..100_000 {
                match d.process(&mut s, None, None) {
                    Ok(ProcessingResult::Complete { .. }) => {
                        if d.basic_info().is_some() && d.frame_header().is_none() && !d.has_more_frames() {
                            return Ok(true);
                        }
                    }
                    Ok(ProcessingResult::NeedsMoreInput { .. }) => return Ok(false),
                    Err(e) => return Err(e.to_string()),
                }
            }
            Ok(false)
        }));
        match r {
            Ok(r) => {
                self.targets = d.scanned_frames().to_vec();
                let n = self.targets.len();
                self.log(|| format!("scan pass: {r:?}, {n} frames"));
            }
            Err(_) => {
                let m = crate::exec::take_panic().unwrap_or_default();
                self.out.end = End::Panic(format!("scan: {}", crate::exec::clean_msg(&m)));
                self.dec = Dec::Gone;
            }
        }
        self.scanned_pass = true;
    }

    fn seek(&mut self, k: usize, cold: bool) {
        if k >= self.targets.len() {
            return;
        }
        let t = self.targets[k].seek_target;
        {
            let _i = alloc::inside();
            match &mut self.dec {
                Dec::Info(d) => d.start_new_frame(t),
                Dec::Inner(d) if self.phase != Phase::Header => d.start_new_frame(t),
                _ => return,
            }
        }
        self.log(|| format!("seek {k} {cold} {}", t.decode_start_file_offset));
        self.out.seeks += 1;
        let mark = if cold {
            t.decode_start_file_offset as usize
        } else {
            self.src.delivered()
        };
        self.src.reposition(t.decode_start_file_offset, mark);
        self.phase = Phase::Between;
        self.skip = false;
        self.header = None;
        self.next_index = k;
        self.base = t.decode_start_file_offset;
        self.out.seek_last = Some((k, self.base));
        self.preview_pending = false;
        self.make_bufs();
    }

    fn dead(&self) -> bool {
        matches!(self.dec, Dec::Gone) || self.phase == Phase::Finished
    }

    fn fail(&mut self, e: String) {
        if !matches!(self.out.end, End::Panic(_)) {
            self.out.end = End::Err(self.phase, e);
        }
        self.dec = Dec::Gone;
    }

    /// Makes up to `steps` calls; false once the run is over.
    fn run_steps(&mut self, steps: u32) -> bool {
        let mut retries = 0;
        for _ in 0..steps {
            if self.dead() {
                return true;
            }
            match self.step() {
                Step::Advanced => {}
                Step::NeedMore(_) => return true,
                Step::Failed(e, io) => {
                    if matches!(self.out.end, End::Panic(_)) {
                        return false;
                    }
                    if self.plan.retry && (io || self.plan.retry_all) && retries < 8 && !matches!(self.dec, Dec::Gone) {
                        retries += 1;
                        continue;
                    }
                    self.fail(e);
                    return false;
                }
            }
        }
        true
    }

    fn drain(&mut self) {
        self.in_drain = true;
        let total = self.data.len();
        self.src.set_mark(total);
        let mut same = 0;
        let mut last = (u64::MAX, Phase::Header, 0usize);
        let mut retries = 0;
        loop {
            if self.phase == Phase::Finished {
                self.out.end = End::Done;
                return;
            }
            match self.step() {
                Step::Advanced => same = 0,
                Step::NeedMore(_) => {
                    let now = (self.src.position(), self.phase, self.out.frames.len());
                    if now == last {
                        same += 1;
                    } else {
                        same = 0;
                    }
                    last = now;
                    // With exact deliveries, one call without any progress is
                    // conclusive; with short reads a few more are made.
                    let lim = if self.plan.src.short > 0 || self.plan.src.kind != crate::source::SrcKind::Slice {
                        4
                    } else {
                        2
                    };
                    if same >= lim {
                        self.out.end = End::NeedMore(self.phase);
                        return;
                    }
                }
                Step::Failed(e, io) => {
                    if matches!(self.out.end, End::Panic(_)) {
                        return;
                    }
                    if self.plan.retry && (io || self.plan.retry_all) && retries < 8 && !matches!(self.dec, Dec::Gone) {
                        retries += 1;
                        continue;
                    }
                    self.fail(e);
                    return;
                }
            }
        }
    }

    /// Executes one operation; false once nothing more can happen.
    pub fn do_op(&mut self, op: &Op) -> bool {
        if self.abandoned || matches!(self.out.end, End::Panic(_) | End::TooBig) {
            return false;
        }
        if matches!(self.dec, Dec::Gone) && *op != Op::Restart {
            return true;
        }
        match op {
            Op::Feed(n, steps) => {
                self.src.grant(*n);
                self.note_scanned();
                if !self.dead() {
                    self.run_steps(*steps);
                }
            }
            Op::FeedHint(n) => {
                for _ in 0..*n {
                    if self.dead() {
                        break;
                    }
                    if !self.run_steps(64) {
                        break;
                    }
                    if self.phase == Phase::Finished {
                        break;
                    }
                    let h = self.last_hint;
                    self.out.hint_feeds += 1;
                    if self.src.all_delivered() {
                        break;
                    }
                    if h == 0 {
                        self.out.zero_hints += 1;
                        if self.out.zero_hints == 8 {
                            self.bad(
                                "zero-hint",
                                "the decoder keeps asking for more input with a size hint of 0".into(),
                            );
                            break;
                        }
                        self.src.grant(1);
                    }
                    let left = self.data.len() - self.src.delivered();
                    if h > left {
                        self.out.hint_over += 1;
                    }
                    self.src.grant(h);
                }
            }
            Op::Deliver(n) => {
                self.src.grant(*n);
            }
            Op::Proc => {
                if !self.dead() {
                    self.run_steps(1);
                }
            }
            Op::Flush => self.flush(None),
            Op::FlushBad(b) => self.flush(Some(*b)),
            Op::Skip => {
                if matches!(self.phase, Phase::Between | Phase::InFrame) {
                    self.skip = true;
                }
            }
            Op::Seek(k) => {
                self.note_scanned();
                self.seek(*k, false)
            }
            Op::SeekCold(k) => {
                self.note_scanned();
                self.seek(*k, true)
            }
            Op::Scan => self.scan(),
            Op::SetFmt(f) => {
                // Only right after the header or a completed frame.
                if self.phase == Phase::Between {
                    self.fmt = *f;
                    self.set_format();
                    self.out.fmt_changes += 1;
                }
            }
            Op::Restart => {
                let old = std::mem::replace(&mut self.dec, Dec::Gone);
                if catch_unwind(AssertUnwindSafe(move || drop(old))).is_err() {
                    let m = crate::exec::take_panic().unwrap_or_default();
                    self.out.end = End::Panic(format!("drop: {}", crate::exec::clean_msg(&m)));
                    return false;
                }
                let end = if matches!(self.out.end, End::Err(..)) {
                    std::mem::replace(&mut self.out.end, End::Done)
                } else if self.phase == Phase::Finished {
                    End::Done
                } else {
                    End::Abandoned
                };
                let frames = std::mem::take(&mut self.out.frames);
                self.out.bases.clear();
                self.out.seek_last = None;
                self.out.earlier.push(Attempt { frames, end });
                self.out.scanned.clear();
                self.out.info = None;
                self.out.profiles = None;
                self.out.default_format = None;
                self.fmt = self.plan.fmt;
                self.preview_pending = false;
                alloc::clear_fail();
                self.log(|| "restart".into());
                self.drop_bufs();
                self.fresh_decoder();
                self.src.reposition(0, self.src.delivered());
                if !self.scanned_pass {
                    self.targets.clear();
                }
                self.out.restarts += 1;
            }
            Op::Abandon => {
                self.abandoned = true;
                return false;
            }
        }
        !matches!(self.out.end, End::Panic(_) | End::TooBig)
    }

    pub fn begin(&mut self) {
        if let Some(a) = &self.plan.alloc {
            alloc::set_fail(a.min, a.at, a.run);
        }
    }

    pub fn finish(mut self) -> (Outcome, Option<Vec<Vec<u8>>>) {
        if self.abandoned {
            self.out.end = End::Abandoned;
        } else if !matches!(self.dec, Dec::Gone) {
            self.drain();
        }
        self.note_scanned();
        self.out.at_frame = self.next_index;
        if self.phase == Phase::Finished {
            self.out.file_length = match &self.dec {
                Dec::Info(d) => d.file_length(),
                Dec::Inner(d) => d.file_length(),
                _ => None,
            };
        }
        let (e, fl) = (self.out.end.clone(), self.out.file_length);
        self.log(|| format!("end {e:?} {fl:?}"));
        self.out.alloc_failed = alloc::failed();
        self.out.alloc_big = alloc::big();
        alloc::clear_fail();
        // The buffers outlive the decoder: dropping it must not write to them.
        let before = self.bufs_hash();
        let dec = std::mem::replace(&mut self.dec, Dec::Gone);
        if catch_unwind(AssertUnwindSafe(move || drop(dec))).is_err() {
            let m = crate::exec::take_panic().unwrap_or_default();
            self.out.end = End::Panic(format!("drop: {}", crate::exec::clean_msg(&m)));
        }
        if before != self.bufs_hash() {
            self.bad("drop-writes", "dropping the decoder changed the output buffers".into());
        }
        self.check_guards("after dropping the decoder");
        self.drop_bufs();
        self.out.src = self.src.pipe.borrow().st.clone();
        self.out.run = self.rs.lock().unwrap().clone();
        self.out.log = mix(self.out.log ^ self.out.src.hash);
        self.out.points = crate::sched::points();
        (self.out, self.keep_pixels)
    }

    pub fn run(mut self) -> (Outcome, Option<Vec<Vec<u8>>>) {
        let ops = self.plan.ops.clone();
        self.begin();
        for op in &ops {
            if !self.do_op(op) {
                break;
            }
        }
        self.finish()
    }
}
