//! One simulated execution, in a process of its own: the tool's main() with
//! its real command line, or a plain decode of the file for comparison.

use crate::os::{self, OsSpec, OsStats};
use crate::sched::{SchedSpec, SimScheduler, take_trace};
use jxl::api::states::Initialized;
use jxl::api::*;
use jxl::headers::extra_channels::ExtraChannel;
use jxl::image::{OwnedRawImage, Rect};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dt {
    U8,
    U16,
    F16,
    F32,
}

impl Dt {
    pub fn bits(self) -> usize {
        match self {
            Dt::U8 => 8,
            Dt::U16 | Dt::F16 => 16,
            Dt::F32 => 32,
        }
    }
    fn format(self) -> JxlDataFormat {
        match self {
            Dt::U8 => JxlDataFormat::U8 { bit_depth: 8 },
            Dt::U16 => JxlDataFormat::U16 { endianness: Endianness::native(), bit_depth: 16 },
            Dt::F16 => JxlDataFormat::F16 { endianness: Endianness::native() },
            Dt::F32 => JxlDataFormat::f32(),
        }
    }
}

/// How the comparison decode is made.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FramesReq {
    pub accepted: Vec<Dt>,
    pub requested: Option<Dt>,
    pub depth: Option<usize>,
    pub interleave_alpha: bool,
    pub spot: bool,
    pub skip_preview: bool,
    pub high_precision: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Request {
    pub os: OsSpec,
    pub threads: usize,
    pub order: u64,
    pub hw: usize,
    pub sched: SchedSpec,
    pub record: bool,
    /// Decode for comparison instead of running the tool.
    pub frames: Option<FramesReq>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FrameOut {
    pub complete: bool,
    pub duration: f64,
    /// Bytes per row and rows, per channel.
    pub sizes: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FramesOut {
    pub size: (usize, usize),
    pub dt: Option<Dt>,
    pub samples: usize,
    pub channels: usize,
    pub frames: Vec<FrameOut>,
    /// "done", "more" or the error.
    pub end: String,
    pub loops: Option<u32>,
    pub bit_depth: u32,
    pub preview: Option<(usize, usize)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Reply {
    pub exit: i32,
    pub error: String,
    pub panic: Option<String>,
    /// Names and lengths of the files in the simulated directory, in the order
    /// of the data that follows.
    pub files: Vec<(String, usize)>,
    pub os: OsStats,
    pub stdout: String,
    pub frames: Option<FramesOut>,
    pub trace_hash: u64,
    pub points: u64,
    pub decisions: u64,
    pub forced: Vec<(u32, u32)>,
    pub runs: u64,
    pub tasks: u64,
    #[serde(skip)]
    pub data: Vec<Vec<u8>>,
}

fn frames(file: &[u8], rq: &FramesReq) -> (FramesOut, Vec<Vec<u8>>) {
    let mut out = FramesOut::default();
    let mut blobs = vec![];
    let mut o = JxlDecoderOptions::default();
    o.render_spot_colors = rq.spot;
    o.skip_preview = rq.skip_preview;
    o.high_precision = rq.high_precision;
    let mut inp = file;
    let mut d = match JxlDecoder::<Initialized>::new(o).process(&mut inp, None) {
        Ok(ProcessingResult::Complete { result }) => result,
        Ok(ProcessingResult::NeedsMoreInput { .. }) => {
            out.end = "header".into();
            return (out, blobs);
        }
        Err(e) => {
            out.end = format!("error {e}");
            return (out, blobs);
        }
    };
    let info = d.basic_info().clone();
    let depth = rq.depth.unwrap_or(info.bit_depth.bits_per_sample() as usize);
    let dt = match rq.requested {
        Some(t) if rq.accepted.contains(&t) => t,
        _ => *rq.accepted.iter().find(|x| x.bits() >= depth).unwrap_or(rq.accepted.last().unwrap()),
    };
    let alpha = info.extra_channels.iter().position(|e| e.ec_type == ExtraChannel::Alpha);
    let fold = rq.interleave_alpha && alpha.is_some();
    let cur = d.current_pixel_format().clone();
    d.set_pixel_format(JxlPixelFormat {
        color_type: if fold { cur.color_type.add_alpha() } else { cur.color_type },
        color_data_format: Some(dt.format()),
        extra_channel_format: cur
            .extra_channel_format
            .iter()
            .enumerate()
            .map(|(c, f)| if fold && Some(c) == alpha { None } else { f.as_ref().map(|_| dt.format()) })
            .collect(),
    });
    let samples = d.current_pixel_format().color_type.samples_per_pixel();
    let extra = info.extra_channels.len() - fold as usize;
    out.size = info.size;
    out.dt = Some(dt);
    out.samples = samples;
    out.channels = 1 + extra;
    out.loops = info.animation.as_ref().map(|a| a.num_loops);
    out.bit_depth = info.bit_depth.bits_per_sample();
    out.preview = info.preview_size;
    let put = |out: &mut FramesOut, blobs: &mut Vec<Vec<u8>>, bufs: &[OwnedRawImage], complete, duration| {
        let mut f = FrameOut { complete, duration, sizes: vec![] };
        for b in bufs {
            f.sizes.push(b.byte_size());
            let mut v = vec![];
            for y in 0..b.byte_size().1 {
                v.extend_from_slice(b.row(y));
            }
            blobs.push(v);
        }
        out.frames.push(f);
    };
    loop {
        let size = match info.preview_size {
            Some((x, y)) if !rq.skip_preview && out.frames.is_empty() => {
                if info.orientation.is_transposing() { (y, x) } else { (x, y) }
            }
            _ => info.size,
        };
        let bs = (size.0 * dt.bits() / 8, size.1);
        let mut bufs = vec![OwnedRawImage::new((bs.0 * samples, bs.1)).unwrap()];
        for _ in 0..extra {
            bufs.push(OwnedRawImage::new(bs).unwrap());
        }
        fn rects(v: &mut [OwnedRawImage]) -> Vec<JxlOutputBuffer<'_>> {
            v.iter_mut()
                .map(|x| {
                    let r = Rect { size: x.byte_size(), origin: (0, 0) };
                    JxlOutputBuffer::from_image_rect_mut(x.get_rect_mut(r))
                })
                .collect()
        }
        let f = match d.process(&mut inp, None) {
            Ok(ProcessingResult::Complete { result }) => result,
            Ok(ProcessingResult::NeedsMoreInput { mut fallback, .. }) => {
                if let Err(e) = fallback.flush_pixels(&mut rects(&mut bufs), None) {
                    out.end = format!("error {e}");
                    return (out, blobs);
                }
                put(&mut out, &mut blobs, &bufs, false, 0.0);
                out.end = "more".into();
                return (out, blobs);
            }
            Err(e) => {
                out.end = format!("error {e}");
                return (out, blobs);
            }
        };
        let dur = f.frame_header().duration.unwrap_or(0.0);
        let r = f.process(&mut inp, &mut rects(&mut bufs), None);
        d = match r {
            Ok(ProcessingResult::Complete { result }) => result,
            Ok(ProcessingResult::NeedsMoreInput { mut fallback, .. }) => {
                if let Err(e) = fallback.flush_pixels(&mut rects(&mut bufs), None) {
                    out.end = format!("error {e}");
                    return (out, blobs);
                }
                put(&mut out, &mut blobs, &bufs, false, dur);
                out.end = "more".into();
                return (out, blobs);
            }
            Err(e) => {
                out.end = format!("error {e}");
                return (out, blobs);
            }
        };
        put(&mut out, &mut blobs, &bufs, true, dur);
        if !d.has_more_frames() {
            out.end = "done".into();
            return (out, blobs);
        }
    }
}

fn clean(m: String) -> String {
    m.replace("/repo/", "")
}

pub fn main() {
    let mut all = vec![];
    std::io::stdin().read_to_end(&mut all).expect("no request");
    let n = u32::from_le_bytes(all[..4].try_into().unwrap()) as usize;
    let rq: Request = serde_json::from_slice(&all[4..4 + n]).expect("bad request");
    let file = all.split_off(4 + n);
    let panic: Arc<Mutex<Option<String>>> = Arc::default();
    let p2 = panic.clone();
    std::panic::set_hook(Box::new(move |i| {
        let s = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut p = p2.lock().unwrap();
        if p.is_none() {
            *p = Some(clean(format!("{s} at {l}")));
        }
    }));
    rayon::sim_set(rq.threads, rq.order);
    jxl::util::sync::set_available_parallelism(std::num::NonZeroUsize::new(rq.hw.max(1)));
    let mut cfg = shuttle::Config::new();
    cfg.stack_size = 16 << 20;
    cfg.failure_persistence = shuttle::FailurePersistence::None;
    cfg.max_steps = shuttle::MaxSteps::FailAfter(60_000_000);
    cfg.silence_warnings = true;
    let mut rp = Reply { exit: 101, ..Default::default() };
    type Got = (i32, String, Option<(FramesOut, Vec<Vec<u8>>)>);
    let got: Arc<Mutex<Option<Got>>> = Arc::default();
    let g2 = got.clone();
    let runner = shuttle::Runner::new(SimScheduler::new(rq.sched.clone(), rq.record), cfg);
    let fr = rq.frames.clone();
    let input = if fr.is_some() { vec![] } else { file.clone() };
    os::start(rq.os.clone(), input);
    let r = catch_unwind(AssertUnwindSafe(|| {
        runner.run(move || {
            let v = match &fr {
                Some(f) => (0, String::new(), Some(frames(&file, f))),
                None => match crate::cli::call() {
                    Ok(()) => (0, String::new(), None),
                    Err(e) => (1, e.chain().map(|x| x.to_string()).collect::<Vec<_>>().join(": "), None),
                },
            };
            *g2.lock().unwrap() = Some(v);
        });
    }));
    let o = os::stop();
    let tr = take_trace();
    rp.trace_hash = tr.hash;
    rp.points = tr.points;
    rp.decisions = tr.decisions;
    rp.forced = tr.forced;
    rp.runs = rayon::RUNS.load(std::sync::atomic::Ordering::SeqCst);
    rp.tasks = rayon::TASKS.load(std::sync::atomic::Ordering::SeqCst);
    rp.panic = panic.lock().unwrap().take();
    if r.is_ok()
        && let Some((x, e, f)) = got.lock().unwrap().take()
    {
        rp.exit = x;
        rp.error = e;
        if let Some((f, b)) = f {
            rp.frames = Some(f);
            rp.data = b;
            rp.files = rp.data.iter().enumerate().map(|(i, d)| (format!("{i}"), d.len())).collect();
        }
    }
    rp.stdout = String::from_utf8_lossy(&o.stdout).into_owned();
    rp.os = o.st;
    if rq.frames.is_none() {
        for (n, d) in o.files {
            if n != "/sim/in.jxl" {
                rp.files.push((n, d.len()));
                rp.data.push(d);
            }
        }
    }
    let j = serde_json::to_vec(&rp).unwrap();
    let mut so = std::io::stdout().lock();
    let mut w = (j.len() as u32).to_le_bytes().to_vec();
    w.extend_from_slice(&j);
    for d in &rp.data {
        w.extend_from_slice(d);
    }
    so.write_all(&w).unwrap();
    so.flush().unwrap();
    std::process::exit(0);
}
