//! Executes a plan and compares what the tool did with what it must do.

use crate::child::{Dt, FramesOut, FramesReq, Reply, Request};
use crate::os::OsSpec;
use crate::plan::{self, Plan, Rel};
use crate::rng::hash_bytes;
use crate::sched::SchedSpec;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Found {
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Judged {
    pub found: Option<Found>,
    pub counts: BTreeMap<String, u64>,
    /// What happened, for the comparison of two executions of one plan.
    pub log: u64,
    pub traces: Vec<u64>,
    pub states: Vec<u64>,
    pub forced: Vec<(u32, u32)>,
    pub resolved: OsSpec,
}

#[derive(Default)]
pub struct Cache {
    key: u64,
    reference: Option<Arc<Reply>>,
    frames: Option<Arc<Reply>>,
    checked: bool,
}

fn bad(class: &str, msg: String) -> Option<Found> {
    Some(Found { class: class.into(), msg })
}

/// Runs one child. `None`: it did not answer in time.
fn execute(args: &[String], rq: &Request, file: &[u8]) -> Option<Reply> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env_clear()
        .env("CLISIM_CHILD", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a child");
    let mut si = c.stdin.take().unwrap();
    let mut so = c.stdout.take().unwrap();
    let j = serde_json::to_vec(rq).unwrap();
    let mut msg = (j.len() as u32).to_le_bytes().to_vec();
    msg.extend_from_slice(&j);
    msg.extend_from_slice(file);
    // The child reads everything before it answers.
    if let Some(d) = std::env::var_os("CLISIM_REQ") {
        let _ = std::fs::write(d, &msg);
    }
    let _ = si.write_all(&msg);
    drop(si);
    let rd = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t = Instant::now();
    let status = loop {
        match c.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if t.elapsed() > Duration::from_secs(120) => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 50 { 300 } else { 3000 })),
        }
    };
    let v = rd.join().unwrap();
    let status = status?;
    if v.len() < 4 {
        return Some(Reply {
            exit: status.code().unwrap_or(255),
            panic: status.code().is_none().then(|| format!("the process died: {status}")),
            error: format!("{status}"),
            ..Default::default()
        });
    }
    let n = u32::from_le_bytes(v[..4].try_into().unwrap()) as usize;
    let mut r: Reply = serde_json::from_slice(&v[4..4 + n]).expect("bad reply");
    let mut p = 4 + n;
    for (_, l) in &r.files {
        r.data.push(v[p..p + l].to_vec());
        p += l;
    }
    Some(r)
}

fn args_of(p: &Plan, extra: bool, len: usize) -> Vec<String> {
    let mut v = vec!["/sim/in.jxl".to_string(), format!("/sim/out.{}", p.format)];
    v.extend(p.args.iter().cloned());
    if extra {
        v.extend(p.extra.iter().cloned());
    }
    for a in &mut v {
        if let Some(k) = a.strip_prefix('@') {
            *a = (len / k.parse::<usize>().unwrap()).max(1).to_string();
        }
    }
    v
}

fn quiet() -> Request {
    Request {
        os: OsSpec { clock: (1000, 0), ..Default::default() },
        threads: 1,
        order: 0,
        hw: 1,
        sched: SchedSpec::Fixed,
        record: false,
        frames: None,
    }
}

fn value<'a>(p: &'a Plan, name: &str) -> Option<&'a str> {
    p.args.iter().position(|a| a == name).map(|i| p.args[i + 1].as_str())
}

fn frames_req(p: &Plan) -> FramesReq {
    let png = p.format == "png" || p.format == "apng";
    FramesReq {
        accepted: match p.format.as_str() {
            "npy" => vec![Dt::F32],
            "exr" => vec![Dt::F16, Dt::F32],
            _ => vec![Dt::U8, Dt::U16],
        },
        requested: value(p, "--data-type").map(|s| match s {
            "u8" => Dt::U8,
            "u16" => Dt::U16,
            "f16" => Dt::F16,
            _ => Dt::F32,
        }),
        depth: value(p, "--override-bitdepth").map(|s| s.parse().unwrap()),
        interleave_alpha: png || p.format == "exr",
        spot: p.format != "npy",
        skip_preview: !p.args.iter().any(|a| a == "--preview"),
        high_precision: p.args.iter().any(|a| a == "--high-precision"),
    }
}

fn file_of<'a>(r: &'a Reply, name: &str) -> Option<&'a [u8]> {
    r.files.iter().position(|f| f.0 == name).map(|i| r.data[i].as_slice())
}

/// The frames an output file holds, as the bytes the decoder delivers.
struct Parsed {
    size: (usize, usize),
    frames: Vec<Vec<u8>>,
    delays: Vec<Option<(u16, u16)>>,
    plays: Option<u32>,
}

fn parse_png(d: &[u8]) -> Result<Parsed, String> {
    let e = |x: png::DecodingError| format!("PNG: {x}");
    let mut dec = png::Decoder::new(std::io::Cursor::new(d));
    dec.set_transformations(png::Transformations::IDENTITY);
    let mut r = dec.read_info().map_err(e)?;
    let n = r.info().animation_control.map_or(1, |a| a.num_frames);
    let plays = r.info().animation_control.map(|a| a.num_plays);
    let size = (r.info().width as usize, r.info().height as usize);
    let wide = r.info().bit_depth == png::BitDepth::Sixteen;
    let mut p = Parsed { size, frames: vec![], delays: vec![], plays };
    for _ in 0..n {
        let mut b = vec![0; r.output_buffer_size().ok_or("PNG: size")?];
        let i = r.next_frame(&mut b).map_err(e)?;
        b.truncate(i.buffer_size());
        if wide {
            for c in b.chunks_exact_mut(2) {
                c.swap(0, 1);
            }
        }
        p.frames.push(b);
        p.delays.push(r.info().frame_control.map(|f| (f.delay_num, f.delay_den)));
    }
    r.finish().map_err(e)?;
    if d.len() < 12 || &d[d.len() - 8..d.len() - 4] != b"IEND" {
        return Err("PNG: no IEND".into());
    }
    Ok(p)
}

fn parse_pnm(d: &[u8], samples: usize) -> Result<Parsed, String> {
    let mut pos = 0;
    let mut line = || -> Result<String, String> {
        let e = d[pos..].iter().position(|b| *b == b'\n').ok_or("PNM: header")?;
        let s = String::from_utf8_lossy(&d[pos..pos + e]).into_owned();
        pos += e + 1;
        Ok(s)
    };
    let magic = line()?;
    if magic != if samples == 1 { "P5" } else { "P6" } {
        return Err(format!("PNM: magic {magic}"));
    }
    let dims = line()?;
    let max = line()?;
    let v: Vec<usize> = dims.split(' ').filter_map(|x| x.parse().ok()).collect();
    if v.len() != 2 {
        return Err("PNM: size".into());
    }
    let wide = match max.as_str() {
        "255" => 1,
        "65535" => 2,
        _ => return Err("PNM: maxval".into()),
    };
    let mut b = d[pos..].to_vec();
    if b.len() != v[0] * v[1] * samples * wide {
        return Err(format!("PNM: {} bytes of pixels for {}x{}", b.len(), v[0], v[1]));
    }
    if wide == 2 {
        for c in b.chunks_exact_mut(2) {
            c.swap(0, 1);
        }
    }
    Ok(Parsed { size: (v[0], v[1]), frames: vec![b], delays: vec![None], plays: None })
}

fn parse_npy(d: &[u8], channels: usize) -> Result<Parsed, String> {
    if d.len() < 10 || &d[..8] != b"\x93NUMPY\x01\0" {
        return Err("NPY: magic".into());
    }
    let h = u16::from_le_bytes([d[8], d[9]]) as usize;
    let head = String::from_utf8_lossy(d.get(10..10 + h).ok_or("NPY: header")?).into_owned();
    let shape = head.split('(').nth(1).and_then(|s| s.split(')').next()).ok_or("NPY: shape")?;
    let v: Vec<usize> = shape.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    if v.len() != 4 || v[3] != channels || !head.contains("'<f4'") || !head.ends_with('\n') {
        return Err(format!("NPY: header {head}"));
    }
    let b = &d[10 + h..];
    let one = v[1] * v[2] * v[3] * 4;
    if b.len() != one * v[0] {
        return Err(format!("NPY: {} bytes of samples, shape {v:?}", b.len()));
    }
    let frames = if one == 0 { vec![vec![]; v[0]] } else { b.chunks_exact(one).map(|c| c.to_vec()).collect() };
    Ok(Parsed { size: (v[2], v[1]), delays: vec![None; v[0]], frames, plays: None })
}

fn expect_frame(p: &Plan, f: &FramesOut, data: &[Vec<u8>], i: usize) -> Vec<u8> {
    let n = f.channels;
    let ch = &data[i * n..(i + 1) * n];
    if p.format != "npy" {
        return ch[0].clone();
    }
    let s = f.samples * 4;
    let mut out = vec![];
    for k in 0..ch[0].len() / s {
        out.extend_from_slice(&ch[0][k * s..(k + 1) * s]);
        for c in &ch[1..] {
            out.extend_from_slice(&c[k * 4..k * 4 + 4]);
        }
    }
    out
}

fn delay(ms: f64) -> (u64, u64) {
    fn gcd(a: u64, b: u64) -> u64 {
        if b == 0 { a } else { gcd(b, a % b) }
    }
    if ms == 0.0 {
        return (0, 1);
    }
    let n = ms.round() as u64;
    let g = gcd(n, 1000);
    (n / g, 1000 / g)
}

/// Compares an output file with the frames the decoder delivers: all of the
/// first `n` frames exactly, `count` in total.
fn content(p: &Plan, out: &[u8], want: &Reply, upto: usize, count: std::ops::RangeInclusive<usize>) -> Result<(), String> {
    let f = want.frames.as_ref().unwrap();
    let one = p.format == "ppm" || p.format == "pgm" || p.args.iter().any(|a| a == "--preview");
    let got = match p.format.as_str() {
        "png" | "apng" => parse_png(out)?,
        "ppm" | "pgm" => parse_pnm(out, f.samples)?,
        "npy" => parse_npy(out, f.samples + f.channels - 1)?,
        _ => {
            // EXR: structure, size and channels; the samples are in linear
            // light, which takes a colour transform to predict.
            use exr::prelude::*;
            let img = read()
                .no_deep_data()
                .largest_resolution_level()
                .all_channels()
                .first_valid_layer()
                .all_attributes()
                .non_parallel()
                .from_buffered(std::io::Cursor::new(out))
                .map_err(|e| format!("EXR: {e}"))?;
            let s = img.layer_data.size;
            if (s.0, s.1) != f.size && f.preview.is_none() {
                return Err(format!("EXR: size {s:?} instead of {:?}", f.size));
            }
            if img.layer_data.channel_data.list.len() != f.samples {
                return Err("EXR: number of channels".into());
            }
            return Ok(());
        }
    };
    let n = got.frames.len();
    let count = if one { 1..=1 } else { count };
    if !count.contains(&n) {
        return Err(format!("{n} frames instead of {count:?}"));
    }
    for i in 0..n.min(upto) {
        let s = f.frames[i].sizes[0];
        let bpp = f.samples * f.dt.unwrap().bits() / 8;
        if got.size != (s.0 / bpp, s.1) {
            return Err(format!("size {:?}, frame {i} is {:?}", got.size, (s.0 / bpp, s.1)));
        }
        let e = expect_frame(p, f, &want.data, i);
        if got.frames[i] != e {
            let at = got.frames[i].iter().zip(&e).position(|(a, b)| a != b);
            return Err(format!("frame {i} differs at byte {at:?} ({} and {} bytes)", got.frames[i].len(), e.len()));
        }
        if n > 1
            && let Some((a, b)) = got.delays[i]
            && (a as u64, b as u64) != delay(f.frames[i].duration)
        {
            return Err(format!("frame {i} lasts {a}/{b} s instead of {} ms", f.frames[i].duration));
        }
    }
    if n > 1
        && let (Some(a), Some(b)) = (got.plays, f.loops)
        && a != b
    {
        return Err(format!("plays {a} times instead of {b}"));
    }
    Ok(())
}

fn at(f: u32, n: u64) -> u64 {
    f as u64 * n >> 16
}

fn diff(a: &Reply, b: &Reply) -> Option<String> {
    let (x, y): (Vec<_>, Vec<_>) = (a.files.iter().map(|f| &f.0).collect(), b.files.iter().map(|f| &f.0).collect());
    if x != y {
        return Some(format!("output files {x:?} instead of {y:?}"));
    }
    for i in 0..a.data.len() {
        if a.data[i] != b.data[i] {
            let p = a.data[i].iter().zip(&b.data[i]).position(|(x, y)| x != y);
            return Some(format!(
                "{} has {} bytes instead of {}, first difference at {p:?}",
                a.files[i].0,
                a.data[i].len(),
                b.data[i].len()
            ));
        }
    }
    None
}

fn resolve(p: &Plan, probe: &Reply, total: usize, cut: &mut Option<usize>, len: usize, cut_rel: bool) -> OsSpec {
    let mut o = p.os.clone();
    for r in &p.rel {
        match r {
            Rel::Disk(None, n) => o.disk = Some(total.saturating_sub(*n)),
            Rel::Disk(Some(f), _) => o.disk = Some(at(*f, total as u64) as usize),
            Rel::Write(None, n, f) => o.writes.push((probe.os.writes.saturating_sub(1 + n), f.clone())),
            Rel::Write(Some(x), _, f) => o.writes.push((at(*x, probe.os.writes), f.clone())),
            Rel::Read(x, f) => o.reads.push((at(*x, probe.os.reads), f.clone())),
            Rel::Seek(x, f) => o.seeks.push((at(*x, probe.os.seeks), f.clone())),
            // The first file opened is the input.
            Rel::Open(x, f) => o.opens.push((1 + at(*x, probe.os.opens.saturating_sub(1)), f.clone())),
            Rel::Shrink(x, y) => o.shrink = Some((at(*x, probe.os.reads), at(*y, len as u64) as usize)),
            Rel::Cut(x) if cut_rel => *cut = Some(at(*x, len as u64) as usize),
            Rel::CutEnd(n) if cut_rel => *cut = Some(len.saturating_sub(*n)),
            _ => {}
        }
    }
    o
}

pub fn judge(p: &Plan, cache: &mut Cache) -> Judged {
    let mut j = Judged::default();
    j.found = run(p, cache, &mut j);
    j
}

fn tally(j: &mut Judged, r: &Reply) {
    let mut add = |n: &str, v: u64| *j.counts.entry(n.into()).or_default() += v;
    add("executions", 1);
    add("syscalls", r.os.opens + r.os.reads + r.os.seeks + r.os.writes + r.os.clock_reads);
    add("bytes_written", r.os.bytes_written);
    add("sched_points", r.points);
    add("sched_decisions", r.decisions);
    add("runner_tasks", r.tasks);
    for (n, v) in &r.os.fired {
        add(&format!("fault.{n}"), *v);
    }
    if r.decisions > 0 {
        j.traces.push(r.trace_hash);
    }
    j.states.push(hash_bytes(r.os.reads ^ r.os.writes << 20, format!("{}{}", r.exit, r.error).as_bytes()));
    j.log = crate::rng::mix(j.log ^ r.os.log ^ r.trace_hash ^ r.exit as u64);
    for d in &r.data {
        j.log = hash_bytes(j.log, d);
    }
}

fn run(p: &Plan, cache: &mut Cache, j: &mut Judged) -> Option<Found> {
    let whole = plan::bytes(&p.file);
    let p18 = p.property == "P18";
    // In P18 a cut file is the input of both executions.
    let mut cut = p.cut;
    for r in &p.rel {
        if let (Rel::Cut(x), true) = (r, p18) {
            cut = Some(at(*x, whole.len() as u64) as usize);
        }
    }
    let base = &whole[..cut.unwrap_or(whole.len()).min(whole.len())];
    let key = hash_bytes(hash_bytes(3, base), format!("{:?}", args_of(p, false, base.len())).as_bytes());
    if cache.key != key {
        *cache = Cache { key, ..Default::default() };
    }
    let timeout = || bad("hang", "no answer within 120 s".into());
    if cache.reference.is_none() {
        let Some(r) = execute(&args_of(p, false, base.len()), &quiet(), base) else { return timeout() };
        if let Some(d) = std::env::var_os("CLISIM_SAVE") {
            for (i, (n, _)) in r.files.iter().enumerate() {
                let n = n.rsplit('/').next().unwrap();
                let _ = std::fs::write(std::path::Path::new(&d).join(n), &r.data[i]);
            }
        }
        cache.reference = Some(Arc::new(r));
    }
    let reference = cache.reference.clone().unwrap();
    if let Some(m) = &reference.panic {
        return bad("panic", format!("without any fault: {m}"));
    }
    if reference.exit > 1 {
        return bad("usage", format!("the command line is not accepted: {}", reference.error));
    }
    let preview = p.args.iter().any(|a| a == "--preview");
    if cache.frames.is_none() {
        let rq = Request { frames: Some(frames_req(p)), ..quiet() };
        let Some(r) = execute(&[], &rq, base) else { return timeout() };
        if r.frames.is_none() {
            return bad("panic", format!("plain decode: {}", r.panic.unwrap_or_default()));
        }
        cache.frames = Some(Arc::new(r));
    }
    let full = cache.frames.clone().unwrap();
    let ff = full.frames.as_ref().unwrap();
    let out = format!("/sim/out.{}", p.format);
    if !cache.checked {
        cache.checked = true;
        *j.counts.entry("contents_checked".into()).or_default() += 1;
        if reference.exit == 0 {
            let partial_ok = p.args.iter().any(|a| a == "--allow-partial-files");
            if ff.end != "done" && !(partial_ok && ff.end == "more") {
                return bad("false-success", format!("success, although decoding ends with {}", ff.end));
            }
            let interval = p.args.iter().any(|a| a == "--render-interval");
            // What a preview of cut data shows may depend on where it was asked for.
            let upto = if interval { ff.frames.iter().filter(|f| f.complete).count() } else { ff.frames.len() };
            let Some(o) = file_of(&reference, &out) else {
                return bad("content", "success without an output file".into());
            };
            if let Err(e) = content(p, o, &full, upto, ff.frames.len()..=ff.frames.len()) {
                return bad("content", format!("without any fault: {e}"));
            }
        } else {
            *j.counts.entry("refused_without_faults".into()).or_default() += 1;
        }
    }
    let args = args_of(p, true, base.len());
    let mut rq = Request {
        os: p.os.clone(),
        threads: p.threads,
        order: p.order,
        hw: p.hw,
        sched: p.sched.clone(),
        record: false,
        frames: None,
    };
    // Positions are relative to the same execution without the faults.
    let needs_probe = p.os.short_reads.is_some() || p.os.short_writes.is_some() || !p.extra.is_empty();
    let probe = if needs_probe && p.rel.iter().any(|r| !matches!(r, Rel::Disk(..) | Rel::Cut(..) | Rel::CutEnd(..))) {
        match execute(&args, &rq, base) {
            Some(r) => Arc::new(r),
            None => return timeout(),
        }
    } else {
        reference.clone()
    };
    let total = reference.data.iter().map(|d| d.len()).sum();
    let mut end = None;
    rq.os = resolve(p, &probe, total, &mut end, base.len(), !p18);
    rq.record = !matches!(p.sched, SchedSpec::Fixed | SchedSpec::Forced(_));
    j.resolved = rq.os.clone();
    let data = &base[..end.unwrap_or(base.len())];
    let Some(f) = execute(&args, &rq, data) else { return timeout() };
    tally(j, &f);
    j.forced = f.forced.clone();
    if let Some(m) = &f.panic {
        return bad("panic", m.clone());
    }
    if f.exit > 1 {
        return bad("died", format!("exit status {}: {}", f.exit, f.error));
    }
    let name = |r: &Reply| if r.exit == 0 { "succeeds".to_string() } else { format!("fails ({})", r.error) };
    let fired: Vec<_> = f.os.fired.iter().map(|(k, v)| format!("{k} x{v}")).collect();
    if p18 {
        if f.exit == 0 {
            if reference.exit != 0 {
                return bad("false-success", format!("succeeds with faults ({fired:?}), without them it {}", name(&reference)));
            }
            if let Some(d) = diff(&f, &reference) {
                return bad("incomplete", format!("reports success although {d} (faults: {fired:?})"));
            }
        } else if reference.exit == 0 && !f.os.hard_write && !f.os.fired.contains_key("open-error") {
            return bad("soft-fault", format!("{} after {fired:?} only", name(&f)));
        }
        return None;
    }
    match p.scenario.as_str() {
        "reads" | "threads" | "speedtest" => {
            if f.exit != reference.exit {
                return bad("outcome", format!("{}, a plain run {}", name(&f), name(&reference)));
            }
            if f.exit == 0
                && let Some(d) = diff(&f, &reference)
            {
                return bad("differs", d);
            }
        }
        "interval" => {
            if f.exit != reference.exit {
                return bad("outcome", format!("{}, a plain run {}", name(&f), name(&reference)));
            }
            if f.exit == 0 {
                for (i, (n, _)) in reference.files.iter().enumerate() {
                    if file_of(&f, n) != Some(&reference.data[i]) {
                        return bad("differs", format!("{n} differs from that of a run without partial renders"));
                    }
                }
                let parts: Vec<_> = f.files.iter().filter(|x| x.0.contains(".partial")).collect();
                *j.counts.entry("partial_files".into()).or_default() += parts.len() as u64;
                if let Some(l) = parts.last()
                    && file_of(&f, &l.0) != file_of(&f, &out)
                {
                    return bad("differs", "the last partial render is not the image".into());
                }
            }
        }
        "truncated" | "partial" => {
            let rq = Request { frames: Some(frames_req(p)), ..quiet() };
            let Some(d) = execute(&[], &rq, data) else { return timeout() };
            let Some(df) = d.frames.as_ref() else {
                return bad("panic", format!("plain decode: {}", d.panic.unwrap_or_default()));
            };
            let n = data.len();
            if df.end == "done" || (preview && reference.exit != 0) {
                if f.exit != reference.exit {
                    return bad("outcome", format!("the first {n} bytes hold everything, but it {}; on the whole file it {}", name(&f), name(&reference)));
                }
                if f.exit == 0
                    && let Some(x) = diff(&f, &reference)
                {
                    return bad("differs", x);
                }
                return None;
            }
            if p.scenario == "truncated" || df.end != "more" {
                if f.exit == 0 {
                    return bad("false-success", format!("success on the first {n} of {} bytes, where decoding ends with {}", base.len(), df.end));
                }
                return None;
            }
            if f.exit != 0 {
                // Formats that refuse the image refuse its parts.
                if reference.exit == 0 {
                    return bad("partial", format!("{} on the first {n} of {} bytes although partial files are allowed", name(&f), base.len()));
                }
                return None;
            }
            let Some(o) = file_of(&f, &out) else { return bad("content", "success without an output file".into()) };
            if let Err(e) = content(p, o, &d, df.frames.len(), df.frames.len()..=df.frames.len()) {
                return bad("partial", format!("first {n} of {} bytes: {e}", base.len()));
            }
        }
        _ => {
            if f.exit != 0 {
                return None;
            }
            let allowed = p.scenario == "shrink" && p.extra.iter().any(|a| a == "--allow-partial-files");
            if reference.exit != 0 {
                // Part of a file can be saved in a format that cannot hold all of it.
                if allowed {
                    return None;
                }
                return bad("false-success", format!("succeeds with faults ({fired:?}), without them it {}", name(&reference)));
            }
            let Some(d) = diff(&f, &reference) else { return None };
            if !allowed {
                return bad("false-success", format!("reports success although {d} (faults: {fired:?})"));
            }
            let Some(o) = file_of(&f, &out) else { return bad("content", "success without an output file".into()) };
            let n = match p.format.as_str() {
                "png" | "apng" => parse_png(o).map(|x| x.frames.len()),
                "npy" => parse_npy(o, ff.samples + ff.channels - 1).map(|x| x.frames.len()),
                _ => Ok(1),
            };
            let n = match n {
                Ok(n) => n,
                Err(e) => return bad("content", e),
            };
            if let Err(e) = content(p, o, &full, n.saturating_sub(1), 1..=ff.frames.len()) {
                return bad("partial", format!("input shrank: {e}"));
            }
        }
    }
    None
}
