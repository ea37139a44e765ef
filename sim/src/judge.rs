//! Decides whether the runs of a plan respect the plan's property.

use crate::corpus;
use crate::drive::*;
use crate::genfile::ModelFrame;
use crate::plan::*;
use crate::rng::{hash_bytes, mix};
use crate::runner::RunKind;
use crate::sched::SchedSpec;
use crate::sim::{self, Ran};
use crate::source::SrcSpec;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Found {
    pub class: String,
    pub msg: String,
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Report {
    pub found: Vec<Found>,
    pub counts: BTreeMap<String, u64>,
    pub traces: Vec<u64>,
    pub states: Vec<u64>,
    pub forced: Vec<(u32, u32)>,
    pub log: u64,
}

impl Report {
    fn add(&mut self, class: &str, msg: impl Into<String>) {
        if self.found.len() < 8 {
            self.found.push(Found {
                class: class.into(),
                msg: msg.into(),
            });
        }
    }
    fn count(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(what.into()).or_default() += n;
        }
    }
    /// Takes note of what one simulated run covered.
    fn note(&mut self, p: &Plan, r: &Ran) {
        self.count("executions", 1);
        for o in std::iter::once(&r.out).chain(&r.also) {
            self.count("decoder_calls", o.calls);
            self.count("frames_completed", o.frames.iter().filter(|f| f.1.bufs.is_some()).count() as u64);
            self.count("frames_skipped", o.skipped);
            self.count("flushes", o.flushes.len() as u64);
            self.count("flushes_refused", o.flush_errs);
            self.count("seeks", o.seeks);
            self.count("seeks_further_back", o.reseeks);
            self.count("restarts", o.restarts);
            self.count("format_changes", o.fmt_changes);
            self.count("source_calls", o.src.calls);
            self.count("hint_deliveries", o.hint_feeds);
            self.count("fault.short_read", o.src.short_reads);
            self.count("fault.wrong_estimate", o.src.wrong_estimates);
            self.count("fault.io_error", o.src.errors);
            self.count("fault.seek_past_end", o.src.seeks_past_end);
            self.count("fault.pool_failure", o.run.faults);
            self.count("fault.task_error", o.run.task_errors);
            self.count("fault.allocation_failure", o.alloc_failed);
            self.count("runner_jobs", o.run.runs);
            self.count("runner_tasks", o.run.tasks);
            self.count("parallel_jobs", o.run.parallel_runs);
            for s in &o.states {
                self.states.push(mix(*s ^ hash_bytes(0, p.scenario.as_bytes())));
            }
        }
        self.count("sched_points", r.trace.points);
        self.count("sched_decisions", r.trace.decisions);
        self.count("sched_switches", r.trace.switches);
        if p.muts.iter().any(|m| matches!(m, Mutation::Truncate(_))) {
            self.count("fault.truncated_input", 1);
        }
        if p.muts.iter().any(|m| !matches!(m, Mutation::Truncate(_))) {
            self.count("fault.corrupted_input", 1);
        }
        if p.ops.contains(&Op::Abandon) {
            self.count("fault.decoder_dropped", 1);
        }
        if p.ops.iter().any(|o| matches!(o, Op::FlushBad(_))) {
            self.count("fault.bad_buffers", 1);
        }
        if matches!(p.sched, SchedSpec::Starve(_)) && r.trace.decisions > 0 {
            self.count("fault.starved_thread", 1);
        }
        if r.trace.decisions > 0 {
            self.count("multi_threaded_executions", 1);
            self.traces.push(r.trace.hash);
        }
        self.log = mix(self.log ^ r.out.log ^ mix(r.trace.hash));
        for o in &r.also {
            self.log = mix(self.log ^ o.log);
        }
    }
}

thread_local! {
    static REFS: RefCell<HashMap<u64, Arc<Outcome>>> = RefCell::default();
    static MODELS: RefCell<HashMap<u64, Arc<Vec<ModelFrame>>>> = RefCell::default();
}

/// The same file and settings, decoded in one go on one thread.
fn reference_plan(p: &Plan) -> Plan {
    let mut q = Plan::plain("ref", p.file.clone());
    q.wrap = p.wrap.clone();
    q.muts = p.muts.clone();
    q.opts = p.opts;
    q.fmt = p.fmt;
    q
}

pub fn reference(p: &Plan) -> Arc<Outcome> {
    let q = reference_plan(p);
    let key = hash_bytes(3, serde_json::to_string(&q).unwrap().as_bytes());
    if let Some(o) = REFS.with(|r| r.borrow().get(&key).cloned()) {
        return o;
    }
    let o = Arc::new(sim::run(&q, false, false).out);
    REFS.with(|r| {
        let mut r = r.borrow_mut();
        if r.len() > 400 {
            r.clear();
        }
        r.insert(key, o.clone());
    });
    o
}

fn model(g: &crate::genfile::GenSpec) -> Arc<Vec<ModelFrame>> {
    let key = hash_bytes(4, serde_json::to_string(g).unwrap().as_bytes());
    if let Some(o) = MODELS.with(|r| r.borrow().get(&key).cloned()) {
        return o;
    }
    let o = Arc::new(g.model());
    MODELS.with(|r| {
        let mut r = r.borrow_mut();
        if r.len() > 6 {
            r.clear();
        }
        r.insert(key, o.clone());
    });
    o
}

fn bare(p: &Plan) -> Plan {
    let mut q = reference_plan(p);
    q.wrap = None;
    q.muts.clear();
    q
}

/// Number of visible frames of the file a plan is about.
pub fn visible(p: &Plan) -> usize {
    if let FileSpec::Gen(g) = &p.file {
        return (0..g.frames.len()).filter(|i| g.is_visible(*i)).count();
    }
    let mut q = bare(p);
    q.opts = DecOpts::plain();
    q.fmt = Fmt::f32();
    reference(&q).frames.len()
}

/// Box boundaries, as seen by a parser of our own.
pub fn box_marks(d: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    if d.len() < 12 || d.starts_with(&[0xff, 0x0a]) {
        return v;
    }
    let mut pos = 12usize;
    v.push(pos);
    while pos + 8 <= d.len() && v.len() < 200 {
        let l = u32::from_be_bytes(d[pos..pos + 4].try_into().unwrap()) as u64;
        let (h, len) = match l {
            0 => (8, (d.len() - pos) as u64),
            1 if pos + 16 <= d.len() => (16, u64::from_be_bytes(d[pos + 8..pos + 16].try_into().unwrap())),
            l => (8, l),
        };
        v.push((pos + h).min(d.len()));
        match pos.checked_add(len as usize) {
            Some(n) if n <= d.len() && len >= 8 => pos = n,
            _ => break,
        }
        v.push(pos);
    }
    v
}

type Map = Vec<(usize, usize, usize)>;

/// How codestream offsets map to file offsets.
fn offset_map(p: &Plan) -> Option<Map> {
    let w = p.wrap.as_ref()?;
    let base = corpus::bytes(&p.file);
    let cs = corpus::codestream(&base)?;
    Some(corpus::wrap(&cs, w).1)
}

fn map_offset(m: &Map, off: usize) -> Option<usize> {
    m.iter()
        .find(|(s, e, _)| *s <= off && off < *e)
        .map(|(s, _, f)| f + (off - s))
}

/// File length up to which everything before this codestream offset is there.
fn map_end(m: &Map, end: usize) -> usize {
    m.iter()
        .filter(|(s, e, _)| s < e && *s < end)
        .map(|(s, e, f)| f + (end.min(*e) - s))
        .max()
        .unwrap_or(0)
}

/// Where each visible frame is complete, if the generator knows.
fn visible_ends(p: &Plan) -> Option<Vec<usize>> {
    let FileSpec::Gen(g) = &p.file else { return None };
    let m = offset_map(p);
    let ranges = g.frame_ranges();
    let mut v = vec![];
    if g.preview.is_some() && !p.opts.skip_preview {
        v.push(g.starts()[1]);
    }
    for (i, (_, e)) in ranges.into_iter().enumerate() {
        if g.is_visible(i) {
            v.push(e);
        }
    }
    if let Some(m) = &m {
        for e in &mut v {
            *e = map_end(m, *e);
        }
    }
    Some(v)
}

/// Offsets worth cutting deliveries near.
pub fn marks(p: &Plan) -> Vec<usize> {
    let mut q = p.clone();
    q.muts.clear();
    let d = corpus::plan_bytes(&q);
    let mut v = box_marks(&d);
    if let FileSpec::Gen(g) = &p.file {
        let m = offset_map(p);
        for (s, e) in g.frame_ranges() {
            match &m {
                Some(m) => {
                    v.push(map_offset(m, s).unwrap_or(0));
                    v.push(map_end(m, e));
                }
                None => v.extend([s, e]),
            }
        }
    } else if let FileSpec::Named(_) = &p.file
        && q.wrap.is_none()
    {
        let mut q = bare(p);
        q.opts = DecOpts::plain();
        q.fmt = Fmt::f32();
        let r = reference(&q);
        v.extend(r.scanned.iter().map(|s| s.offset as usize));
        v.extend(r.file_length.map(|x| x as usize));
    }
    v.push(d.len());
    v.retain(|x| *x <= d.len());
    v.sort();
    v.dedup();
    v
}

pub fn end_kind(e: &End) -> String {
    match e {
        End::Err(p, _) => format!("error in {p:?}"),
        End::NeedMore(p) => format!("asks for more input in {p:?}"),
        End::Done => "done".into(),
        End::Abandoned => "abandoned".into(),
        End::TooBig => "too big".into(),
        End::Panic(m) => format!("panic: {m}"),
    }
}

fn diff_frame(k: usize, a: &FrameOut, b: &FrameOut) -> Option<String> {
    if a.name != b.name || a.duration != b.duration || a.size != b.size {
        return Some(format!(
            "frame {k}: header {:?}/{:?}/{:?} instead of {:?}/{:?}/{:?}",
            b.name,
            b.duration.map(f64::from_bits),
            b.size,
            a.name,
            a.duration.map(f64::from_bits),
            a.size
        ));
    }
    if let (Some(x), Some(y)) = (&a.bufs, &b.bufs)
        && a.fmt == b.fmt
    {
        if a.as_ != b.as_ {
            return Some(format!("frame {k}: reported pixel format or output profile differ"));
        }
        if x.len() != y.len() {
            return Some(format!("frame {k}: {} buffers instead of {}", y.len(), x.len()));
        }
        for (i, (x, y)) in x.iter().zip(y).enumerate() {
            if x != y {
                return Some(format!("frame {k}: pixels in buffer {i} differ"));
            }
        }
    }
    None
}

/// The frame of this index (the preview frame has one of its own).
fn frame_at(r: &Outcome, k: usize) -> Option<&(usize, FrameOut)> {
    r.frames.iter().find(|f| f.0 == k)
}

/// The frames a run shows that playback from its last seek can show: those
/// whose own seek target does not ask to go back further.
fn resumable(rep: &mut Report, r: &Outcome, o: &Outcome) -> Vec<(usize, FrameOut)> {
    let n = o.frames.len();
    let v: Vec<_> = o
        .frames
        .iter()
        .zip(&o.bases)
        .filter(|(f, b)| r.scanned.get(f.0).is_none_or(|s| s.start >= **b))
        .map(|(f, _)| f.clone())
        .collect();
    rep.count("frames_before_resume_point", (n - v.len()) as u64);
    v
}

/// Playing on after a seek may fail where frames need what came before it.
fn may_fail(p: &Plan, r: &Outcome, o: &Outcome) -> bool {
    let Some((k, b)) = o.seek_last else { return false };
    if o.at_frame == k || !matches!(o.end, End::Err(..)) {
        return false;
    }
    if r.scanned.get(o.at_frame).is_none_or(|s| s.start < b) {
        return true;
    }
    // Hidden frames the next shown frame does not need.
    let FileSpec::Gen(g) = &p.file else { return false };
    let vis: Vec<usize> = (0..g.frames.len()).filter(|i| g.is_visible(*i)).collect();
    vis.get(o.at_frame).is_some_and(|i| *i > 0 && !g.is_visible(i - 1))
}

/// Every frame a run completed must be the one playback shows at its index.
fn frames_match(rep: &mut Report, r: &Outcome, frames: &[(usize, FrameOut)]) {
    for (k, f) in frames {
        match frame_at(r, *k) {
            None => rep.add(
                "extra-frame",
                format!("frame {k} was completed, but plain decoding has only {} frames ({})", r.frames.len(), end_kind(&r.end)),
            ),
            Some((_, a)) => {
                if let Some(m) = diff_frame(*k, a, f) {
                    rep.add("frame-differs", m);
                }
            }
        }
    }
}

fn header_match(rep: &mut Report, r: &Outcome, o: &Outcome) {
    if o.info.is_some() && r.info.is_some() && (o.info != r.info || o.profiles != r.profiles || o.default_format != r.default_format) {
        rep.add("info-differs", format!("basic info, profile or format differ: {:?} instead of {:?}", o.info, r.info));
    }
}

fn in_order(rep: &mut Report, o: &Outcome) {
    let skip = usize::from(o.frames.first().is_some_and(|f| f.0 == PREVIEW));
    for (i, (k, _)) in o.frames.iter().skip(skip).enumerate() {
        if i != *k {
            rep.add("frame-order", format!("frame {k} in place {i}"));
            return;
        }
    }
}

fn panics(rep: &mut Report, o: &Outcome) -> bool {
    if let End::Panic(m) = &o.end {
        rep.add("panic", m.clone());
        return true;
    }
    false
}

fn bads(rep: &mut Report, o: &Outcome, classes: &[&str]) {
    for (c, m) in &o.bad {
        if classes.contains(&c.as_str()) {
            rep.add(c, m.clone());
        }
    }
}

fn scanned_match(rep: &mut Report, r: &Outcome, o: &Outcome) {
    if r.scanned != o.scanned {
        let i = r
            .scanned
            .iter()
            .zip(&o.scanned)
            .position(|(a, b)| a != b)
            .unwrap_or(r.scanned.len().min(o.scanned.len()));
        rep.add(
            "scanned-differs",
            format!(
                "frame list differs at {i}: {:?} instead of {:?} ({} instead of {} entries)",
                o.scanned.get(i),
                r.scanned.get(i),
                o.scanned.len(),
                r.scanned.len()
            ),
        );
    }
}

/// The whole observable result must be that of the reference.
fn same(rep: &mut Report, r: &Outcome, o: &Outcome) {
    if panics(rep, o) {
        return;
    }
    header_match(rep, r, o);
    in_order(rep, o);
    frames_match(rep, r, &o.frames);
    if o.end != r.end && end_kind(&o.end) != end_kind(&r.end) {
        rep.add(
            "end-differs",
            format!("{:?} instead of {:?} (after {} of {} frames)", o.end, r.end, o.frames.len(), r.frames.len()),
        );
        return;
    }
    if o.frames.len() != r.frames.len() {
        rep.add("frame-count", format!("{} frames instead of {}", o.frames.len(), r.frames.len()));
    }
    scanned_match(rep, r, o);
    if o.file_length != r.file_length {
        rep.add("length-differs", format!("file length {:?} instead of {:?}", o.file_length, r.file_length));
    }
}

/// Was this run delivered whole (nothing skipped, no early end)?
fn exec(rep: &mut Report, p: &Plan) -> Ran {
    let r = sim::run(p, true, false);
    rep.note(p, &r);
    rep.forced = r.trace.forced.clone();
    r
}

/// A file that is complete and can be decoded to its end never needs more input.
fn needless(rep: &mut Report, o: &Outcome) {
    if o.end == End::Done && o.needless > 0 {
        rep.add("needless-request", format!("asked for more input {} times with the whole file at hand", o.needless));
    }
}

fn must_be_done(rep: &mut Report, p: &Plan, r: &Outcome) -> bool {
    if let FileSpec::Named(n) = &p.file
        && crate::scen::is_broken(n)
    {
        return false;
    }
    if p.opts.sample_limit.is_some() {
        return r.end == End::Done;
    }
    match &r.end {
        End::Done => true,
        End::TooBig => false,
        e => {
            rep.add("valid-file-fails", format!("plain decoding of a valid file: {}", end_kind(e)));
            false
        }
    }
}

pub fn check(p: &Plan) -> Report {
    let mut rep = Report::default();
    match p.prop.as_str() {
        "P01" => {
            let r = reference(p);
            let x = exec(&mut rep, p);
            if must_be_done(&mut rep, p, &r) {
                same(&mut rep, &r, &x.out);
            }
        }
        "P02" => {
            let r = reference(p);
            let x = exec(&mut rep, p);
            if must_be_done(&mut rep, p, &r) {
                same(&mut rep, &r, &x.out);
                bads(&mut rep, &x.out, &["lost-task-error", "task-outlives-call"]);
            }
        }
        "P03" => {
            let r = reference(p);
            let x = exec(&mut rep, p);
            if must_be_done(&mut rep, p, &r) {
                same(&mut rep, &r, &x.out);
            }
        }
        "P04" => p04(&mut rep, p),
        "P05" => p05(&mut rep, p),
        "P06" => p06(&mut rep, p),
        "P07" => {
            let r = reference(p);
            let x = exec(&mut rep, p);
            if must_be_done(&mut rep, p, &r) && !panics(&mut rep, &x.out) {
                if p.retry && x.out.src.lost_places > 0 {
                    rep.count("input_lost_its_place", 1);
                    return rep;
                }
                header_match(&mut rep, &r, &x.out);
                frames_match(&mut rep, &r, &x.out.frames);
                in_order(&mut rep, &x.out);
                if x.out.src.errors == 0 {
                    if x.out.end != End::Done {
                        rep.add("end-differs", format!("no fault struck, but {}", end_kind(&x.out.end)));
                    }
                } else if !p.retry {
                    // An error that passed may go unreported where nothing was lost.
                    let whole = x.out.end == End::Done && x.out.frames.len() == r.frames.len();
                    if whole {
                        rep.count("error_without_loss", 1);
                    } else if !matches!(x.out.end, End::Err(..)) {
                        rep.add("lost-input-error", format!("the input failed, but the run ends: {}", end_kind(&x.out.end)));
                    }
                } else {
                    match &x.out.end {
                        End::Done => {
                            if x.out.frames.len() != r.frames.len() {
                                rep.add("frame-count", format!("{} frames instead of {} after a retry", x.out.frames.len(), r.frames.len()));
                            }
                        }
                        End::Err(..) => {}
                        e => rep.add("stuck-after-retry", format!("after repeating the failed call: {}", end_kind(e))),
                    }
                }
            }
        }
        "P08" => {
            let r = reference(p);
            let x = exec(&mut rep, p);
            if must_be_done(&mut rep, p, &r) && !panics(&mut rep, &x.out) {
                let f = resumable(&mut rep, &r, &x.out);
                frames_match(&mut rep, &r, &f);
                if may_fail(p, &r, &x.out) {
                    rep.count("stopped_before_resume_point", 1);
                } else if x.out.end != End::Done {
                    rep.add("end-differs", format!("playback after a seek: {} instead of reaching the end", end_kind(&x.out.end)));
                }
            }
        }
        "P09" => {
            let mut q = p.clone();
            q.opts.scan_only = false;
            // A preview that is left out leaves the image as it is.
            q.opts.skip_preview = false;
            let r = reference(&q);
            let x = exec(&mut rep, p);
            if must_be_done(&mut rep, p, &r) && !panics(&mut rep, &x.out) {
                let o = &x.out;
                let count = |o: &Outcome| o.frames.iter().filter(|f| f.0 != PREVIEW).count();
                rep.count("previews_left_out", (count(&r) != r.frames.len() && count(o) == o.frames.len()) as u64);
                header_match(&mut rep, &r, o);
                in_order(&mut rep, o);
                frames_match(&mut rep, &r, &o.frames);
                if o.end != End::Done {
                    rep.add("end-differs", format!("{} instead of reaching the end", end_kind(&o.end)));
                } else {
                    if !p.opts.scan_only && count(o) != count(&r) {
                        rep.add("frame-count", format!("{} frames passed by instead of {}", count(o), count(&r)));
                    }
                    scanned_match(&mut rep, &r, o);
                    if o.file_length != r.file_length {
                        rep.add("length-differs", format!("file length {:?} instead of {:?}", o.file_length, r.file_length));
                    }
                    scanned_truth(&mut rep, p, o);
                }
            }
        }
        "P10" => p10(&mut rep, p),
        "P11" => {
            let r = reference(p);
            let x = exec(&mut rep, p);
            bads(&mut rep, &x.out, &["guard", "drop-writes"]);
            if !panics(&mut rep, &x.out) && p.scenario != "corrupt" && must_be_done(&mut rep, p, &r) {
                same(&mut rep, &r, &x.out);
            }
        }
        "P12" => p12(&mut rep, p),
        "P13" => return p13(p),
        "P14" if p.scenario == "cut" => {
            let x = exec(&mut rep, p);
            let o = &x.out;
            if !panics(&mut rep, o) {
                bads(&mut rep, o, &["lost-task-error", "task-outlives-call", "guard"]);
                after_error(&mut rep, o);
                cut_frames(&mut rep, p, o);
            }
        }
        "P14" => {
            let mut q = p.clone();
            q.runner.fault = None;
            let r = reference(&q);
            let x = exec(&mut rep, p);
            let o = &x.out;
            if !panics(&mut rep, o) {
                bads(&mut rep, o, &["lost-task-error", "task-outlives-call", "guard"]);
                frames_match(&mut rep, &r, &o.frames);
                after_error(&mut rep, o);
                if p.scenario != "corrupt" && o.run.faults == 0 && must_be_done(&mut rep, p, &r) {
                    same(&mut rep, &r, o);
                }
            }
        }
        "P15" => {
            let x = exec(&mut rep, p);
            let mut first = p.clone();
            first.also.clear();
            let plans: Vec<Plan> = std::iter::once(first).chain(p.also.iter().cloned()).collect();
            let mut outs = vec![&x.out];
            outs.extend(&x.also);
            if !panics(&mut rep, &x.out) {
                for (i, (q, o)) in plans.iter().zip(outs).enumerate() {
                    let mut q = q.clone();
                    q.sched = SchedSpec::Fixed;
                    let alone = sim::run(&q, false, false);
                    let n = rep.found.len();
                    same(&mut rep, &alone.out, o);
                    if alone.out.flushes.iter().map(|f| f.hash).ne(o.flushes.iter().map(|f| f.hash)) {
                        rep.add("flush-differs", "previews differ from those of the decoder alone");
                    }
                    for f in &mut rep.found[n..] {
                        f.msg = format!("decoder {i}, compared with running alone: {}", f.msg);
                    }
                }
                // Again where no decoder ran before.
                if p.entropy % 3 != 0 || !rep.found.is_empty() {
                    return rep;
                }
                let Some(all) = crate::zygote::run(p) else { return rep };
                for (i, (q, o)) in plans.iter().zip(&all).enumerate() {
                    let mut q = q.clone();
                    q.sched = SchedSpec::Fixed;
                    let Some(alone) = crate::zygote::run(&q) else { continue };
                    rep.count("compared_in_fresh_processes", 1);
                    for l in o {
                        rep.log = hash_bytes(rep.log, l.as_bytes());
                    }
                    if *o != alone[0] {
                        let (a, b) = alone[0].iter().zip(o).find(|(a, b)| a != b).unwrap_or((&alone[0][0], &o[0]));
                        rep.add(
                            "fresh-differs",
                            format!("decoder {i}, in a process where no other ran before: {a:.150}, with the others: {b:.150}"),
                        );
                    }
                }
            }
        }
        "P16" => {
            let x = exec(&mut rep, p);
            let o = &x.out;
            if !panics(&mut rep, o) {
                bads(&mut rep, o, &["drop-writes", "guard"]);
                leaks(&mut rep, p, o);
                if p.scenario.ends_with("restart") && !p.scenario.contains("corrupt") {
                    let r = reference(p);
                    if must_be_done(&mut rep, p, &r) {
                        same(&mut rep, &r, o);
                        for a in &o.earlier {
                            frames_match(&mut rep, &r, &a.frames);
                        }
                    }
                }
            }
        }
        "P17" => p17(&mut rep, p),
        "P20" => p20(&mut rep, p),
        other => panic!("no judgement for {other}"),
    }
    rep
}

/// Whether an allocation must be one whose failure is reported: those for
/// image, coefficient and section data. Smaller tables may be infallible, as
/// most of std is.
fn fallible(size: u64, at: &str) -> bool {
    let is = |f: &str| at.contains(f);
    size >= 4 << 20
        || size >= 4096 && (is("jxl/src/image/") || is("row_buffers.rs") || is("jxl/src/frame/group.rs"))
        || size >= 32768 && (is("frame_info.rs") || is("box_parser.rs"))
}

/// Runs `f` in a process of its own. `Err` is the signal that ended it, and
/// the size of the last allocation that was refused before.
pub fn forked(f: impl FnOnce() -> Report) -> Result<Report, (i32, u64, String)> {
    // SAFETY: the pages and descriptors are used within this function and by
    // the child only; the child has one thread and leaves through _exit.
    unsafe {
        let page = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u8;
        assert!(page as isize != -1, "mmap");
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            crate::alloc::note_failures_at(page);
            let t = serde_json::to_vec(&f()).unwrap();
            let mut at = 0;
            while at < t.len() {
                let n = libc::write(fd[1], t[at..].as_ptr() as *const _, t.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut t = vec![];
        let mut buf = [0u8; 65536];
        let until = std::time::Instant::now() + std::time::Duration::from_secs(60);
        let mut late = false;
        loop {
            let mut w = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
            let left = until.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
            if libc::poll(&mut w, 1, left) == 0 {
                libc::kill(pid, libc::SIGKILL);
                late = true;
                break;
            }
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            t.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let (size, at) = crate::alloc::read_note(page);
        libc::munmap(page as *mut _, 4096);
        match serde_json::from_slice(&t) {
            Ok(r) => Ok(r),
            Err(_) if late => Err((0, size, at)),
            Err(_) => Err((if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { -1 }, size, at)),
        }
    }
}

const P13_ROUNDS: u64 = 4;

fn p13(p: &Plan) -> Report {
    let mut rep = Report::default();
    let mut q = p.clone();
    q.alloc = None;
    let r = reference(&q);
    if !must_be_done(&mut rep, p, &r) {
        return rep;
    }
    let Some(a) = p.alloc.clone() else { return rep };
    // The same run without failures tells how many allocations there are.
    let mut q = p.clone();
    q.alloc = Some(AllocFault { at: u64::MAX, ..a.clone() });
    if let Some(i) = q.ops.iter().position(|o| *o == Op::Restart) {
        q.ops.truncate(i);
        q.ops.push(Op::Abandon);
    }
    if a.by_site {
        crate::alloc::collect_sites();
    }
    let n = exec(&mut rep, &q).out.alloc_big;
    let sites = crate::alloc::take_sites();
    q.ops = p.ops.clone();
    if n == 0 {
        rep.count("nothing_to_fail", 1);
        return rep;
    }
    // Several allocations are tried, each in a run of its own.
    for k in 0..P13_ROUNDS {
        if !rep.found.is_empty() {
            break;
        }
        let want = if k == 0 { a.at } else { mix(a.at ^ k) & 0xffff_ffff };
        let at = if sites.is_empty() {
            ((want as u128 * n as u128) >> 32) as u64
        } else {
            let mut of: Vec<(u64, Vec<u64>)> = vec![];
            let mut index = HashMap::new();
            for (i, s) in sites.iter().enumerate() {
                let k = *index.entry(*s).or_insert_with(|| {
                    of.push((*s, vec![]));
                    of.len() - 1
                });
                of[k].1.push(i as u64);
            }
            let (k, j) = ((want >> 16) as usize & 0xffff, want as usize & 0xffff);
            let v = &of[(k * of.len()) >> 16].1;
            v[(j * v.len()) >> 16]
        };
        q.alloc = Some(AllocFault { at, ..a.clone() });
        let done = forked(|| {
            let mut rep = Report::default();
            let x = exec(&mut rep, &q);
            if !panics(&mut rep, &x.out) {
                bads(&mut rep, &x.out, &["guard", "drop-writes"]);
                for a in &x.out.earlier {
                    frames_match(&mut rep, &r, &a.frames);
                    if x.out.alloc_failed > 0 {
                        rep.count(if matches!(a.end, End::Err(..)) { "failures_reported" } else { "failures_survived" }, 1);
                    }
                }
                after_error(&mut rep, &x.out);
                same(&mut rep, &r, &x.out);
                leaks(&mut rep, &q, &x.out);
            }
            rep
        });
        match done {
            Ok(d) => {
                rep.found.extend(d.found);
                for (k, v) in d.counts {
                    *rep.counts.entry(k).or_default() += v;
                }
                rep.traces.extend(d.traces);
                rep.states.extend(d.states);
                rep.log = mix(rep.log ^ d.log);
            }
            Err((sig, size, at)) => {
                rep.log = mix(rep.log ^ mix(sig as u64) ^ size);
                if sig == libc::SIGABRT && size > 0 && !fallible(size, &at) {
                    // std gives up on allocations that are not asked for fallibly.
                    rep.count("aborts_on_other_allocations", 1);
                    rep.count("fault.allocation_failure", 1);
                } else if sig == 0 {
                    rep.add("hang", format!("no end within a minute after an allocation of {size} bytes was refused at {at}"));
                } else {
                    rep.add("abort", format!("signal {sig} after an allocation of {size} bytes was refused at {at}"));
                }
            }
        }
    }
    rep
}

/// Memory still held after the decoder is gone. What is only allocated once,
/// however often one decodes, is not lost.
fn leaks(rep: &mut Report, p: &Plan, o: &Outcome) {
    if o.mem_end == 0 {
        return;
    }
    let again = sim::run_warm(p);
    if again.mem_end != 0 {
        rep.add("leak", format!("{} bytes still allocated after dropping the decoder", again.mem_end));
    } else {
        rep.count("allocated_once", 1);
    }
}

fn p04(rep: &mut Report, p: &Plan) {
    let x = exec(rep, p);
    let mut q = p.clone();
    q.runner.kind = RunKind::None;
    q.sched = SchedSpec::Fixed;
    q.hw = 1;
    // How far the decoder has read ahead when it reports a header or a frame
    // depends on the reads; what it reads when it asks for more does not.
    if x.out.flushes.iter().all(|f| f.starved) {
        q.src = SrcSpec::plain();
    }
    let y = sim::run(&q, false, false);
    rep.note(&q, &y);
    if panics(rep, &x.out) || panics(rep, &y.out) {
        return;
    }
    bads(rep, &x.out, &["flush-false", "flush-missed", "flush-more", "flush-again"]);
    bads(rep, &y.out, &["flush-false", "flush-missed", "flush-more", "flush-again"]);
    let (a, b) = (&y.out.flushes, &x.out.flushes);
    if a.len() != b.len() {
        rep.add("flush-count", format!("{} previews succeeded instead of {}", b.len(), a.len()));
        return;
    }
    for (i, (a, b)) in a.iter().zip(b).enumerate() {
        if a.phase != b.phase || a.frame != b.frame {
            rep.add("flush-state", format!("preview {i}: in {:?} of frame {} instead of {:?} of frame {}", b.phase, b.frame, a.phase, a.frame));
        } else if a.new_pixels != b.new_pixels {
            rep.add("flush-report", format!("preview {i} (frame {}, {} bytes delivered) reports {} instead of {}", a.frame, a.delivered, b.new_pixels, a.new_pixels));
        } else if a.hash != b.hash {
            rep.add("flush-pixels", format!("preview {i} (frame {}, {} bytes delivered) draws other pixels", a.frame, a.delivered));
        }
    }
}

/// No frame is complete once a call failed for a reason other than the input:
/// something of the frame in progress is missing for good.
fn after_error(rep: &mut Report, o: &Outcome) {
    if let Some(n) = o.frames_at_error
        && o.frames.len() > n
        && o.seeks + o.restarts == 0
    {
        rep.add(
            "complete-after-error",
            format!("frame {n} completed by repeating a call that failed ({:?})", o.errors_seen),
        );
    }
}

/// Frames whose data end early must not be complete, nor any after them.
fn cut_frames(rep: &mut Report, p: &Plan, o: &Outcome) {
    let FileSpec::Gen(g) = &p.file else { return };
    let Some(i) = g.frames.iter().position(|f| f.cut.is_some()) else { return };
    let before = (0..i).filter(|i| g.is_visible(*i)).count();
    let complete = o.frames.iter().filter(|f| f.0 != PREVIEW).count();
    if complete > before {
        rep.add(
            "cut-frame-complete",
            format!("{complete} frames complete although the data of frame {before} end early"),
        );
    }
    if matches!(o.end, End::Done) {
        rep.add("cut-file-complete", "the file is complete although the data of a frame end early".to_string());
    }
}

fn p05(rep: &mut Report, p: &Plan) {
    let x = exec(rep, p);
    if panics(rep, &x.out) {
        return;
    }
    bads(rep, &x.out, &["guard", "drop-writes", "task-outlives-call", "no-header"]);
    after_error(rep, &x.out);
    if p.scenario.contains("-calls") {
        return;
    }
    let r = reference(p);
    if panics(rep, &r) {
        return;
    }
    if r.end == End::TooBig || x.out.end == End::TooBig {
        return;
    }
    header_match(rep, &r, &x.out);
    frames_match(rep, &r, &x.out.frames);
    if p.retry && x.out.errors_seen.len() > 1 {
        return;
    }
    if x.out.frames.len() != r.frames.len() {
        rep.add(
            "frame-count",
            format!("{} frames ({}) instead of {} ({})", x.out.frames.len(), end_kind(&x.out.end), r.frames.len(), end_kind(&r.end)),
        );
    }
    if (x.out.end == End::Done) != (r.end == End::Done) {
        rep.add("end-differs", format!("{:?} instead of {:?}", x.out.end, r.end));
    }
}

fn p06(rep: &mut Report, p: &Plan) {
    let mut q = p.clone();
    q.muts.clear();
    let r = reference(&q);
    let x = exec(rep, p);
    if !must_be_done(rep, p, &r) || panics(rep, &x.out) {
        return;
    }
    let o = &x.out;
    header_match(rep, &r, o);
    in_order(rep, o);
    frames_match(rep, &r, &o.frames);
    match p.scenario.as_str() {
        "prefix" => {
            let len = corpus::plan_bytes(p).len();
            let full = corpus::plan_bytes(&q).len();
            match &o.end {
                End::Done | End::NeedMore(_) => {}
                e => rep.add("prefix-fails", format!("the first {len} of {full} bytes: {}", end_kind(e))),
            }
            if let Some(ends) = visible_ends(&q) {
                let want = ends.iter().filter(|e| **e <= len).count();
                if o.frames.len() > want {
                    rep.add("false-completion", format!("{} frames completed, but the first {len} of {full} bytes hold only {want} (ends: {ends:?})", o.frames.len()));
                } else if o.frames.len() < want && !matches!(o.end, End::Err(..)) {
                    rep.add("late-completion", format!("{} frames completed, but the first {len} of {full} bytes hold {want} (ends: {ends:?})", o.frames.len()));
                }
                if (o.end == End::Done) != (want == ends.len()) && !matches!(o.end, End::Err(..)) {
                    rep.add("false-end", format!("{} after the first {len} of {full} bytes ({want} of {} frames are there)", end_kind(&o.end), ends.len()));
                }
            } else {
                let fl = r.file_length.unwrap_or(full as u64) as usize;
                if len < fl && (o.end == End::Done || o.frames.len() >= r.frames.len()) {
                    rep.add("false-completion", format!("complete after {len} of {fl} bytes"));
                }
                // A frame cannot be complete before the next one starts.
                for (k, s) in r.scanned.iter().enumerate().skip(1) {
                    if p.wrap.is_none() && o.frames.len() >= k && (len as u64) + 64 < s.offset.min(s.start) && k == r.scanned.len() - 1 {
                        // Hidden frames may lie between, so this is only a sanity bound.
                        let prev = &r.scanned[k - 1];
                        if (len as u64) <= prev.offset {
                            rep.add("false-completion", format!("frame {} complete after {len} bytes, but it starts at {}", k - 1, prev.offset));
                        }
                    }
                }
            }
        }
        "hint" => {
            bads(rep, o, &["zero-hint"]);
            if o.end != End::Done {
                rep.add("hint-stuck", format!("delivering what is asked for: {}", end_kind(&o.end)));
            }
            if o.drain_calls > 0 && o.src.errors == 0 && o.hint_feeds >= 100_000 {
                rep.add("hint-endless", "100000 deliveries were not enough".to_string());
            }
        }
        _ => {
            if o.end != End::Done {
                rep.add("end-differs", end_kind(&o.end));
            }
            let bound = 2 * r.scanned.len().max(r.frames.len()) as u64 + 4;
            if o.drain_calls > bound {
                rep.add("slow-progress", format!("{} calls after everything was delivered ({bound} expected at most)", o.drain_calls));
            }
        }
    }
}

/// The scanned list of a generated file is known in advance.
fn scanned_truth(rep: &mut Report, p: &Plan, o: &Outcome) {
    let FileSpec::Gen(g) = &p.file else { return };
    let m = offset_map(p);
    let ranges = g.frame_ranges();
    let vis: Vec<usize> = (0..g.frames.len()).filter(|i| g.is_visible(*i)).collect();
    if o.scanned.len() != vis.len() {
        rep.add("scanned-wrong", format!("{} frames listed, the file shows {}", o.scanned.len(), vis.len()));
        return;
    }
    for (k, (s, i)) in o.scanned.iter().zip(&vis).enumerate() {
        let f = &g.frames[*i];
        let off = match &m {
            Some(m) => map_offset(m, ranges[*i].0).unwrap_or(0),
            None => ranges[*i].0,
        };
        let want_ticks = if g.anim.is_some() { f.duration } else { 0 };
        if s.index != k || s.name != f.name || s.ticks != want_ticks || s.last != (k + 1 == vis.len()) {
            rep.add("scanned-wrong", format!("frame {k} listed as {s:?}, but it is {:?} with {want_ticks} ticks", f.name));
        }
        if s.offset != off as u64 {
            rep.add("scanned-offset", format!("frame {k} listed at file offset {}, but it starts at {off}", s.offset));
        }
    }
}

fn p10(rep: &mut Report, p: &Plan) {
    let b = bare(p);
    let base = reference(&b);
    let one = reference(p);
    let x = exec(rep, p);
    if !must_be_done(rep, &b, &base) || panics(rep, &x.out) || panics(rep, &one) {
        return;
    }
    // The delivery must not matter.
    same(rep, &one, &x.out);
    let Some(map) = offset_map(p) else { return };
    // Frames must not start in parts that came out of order: all parts before
    // theirs come first, and none after it.
    let idx: Vec<u32> = p.wrap.iter().flat_map(|w| &w.boxes).filter_map(|b| match b {
        BoxSpec::Jxlc(_) => Some(0),
        BoxSpec::Jxlp(i, ..) => Some(*i),
        BoxSpec::Other(..) => None,
    }).collect();
    let valid = |off: usize| {
        let Some(i) = map.iter().position(|(s, e, _)| *s <= off && off < *e) else {
            return false;
        };
        idx[..i].iter().all(|j| *j < idx[i]) && idx[i..].iter().all(|j| *j >= idx[i])
    };
    let sorted = idx.windows(2).all(|w| w[0] <= w[1]);
    let starts: Option<Vec<usize>> = match &p.file {
        FileSpec::Gen(g) => Some(g.starts()),
        _ if sorted => Some(vec![]),
        _ => None,
    };
    let accept = sorted || starts.as_ref().is_some_and(|s| s.iter().all(|o| valid(*o)));
    let o = &x.out;
    if !accept {
        if o.end != End::Done {
            rep.count("ooo_refused", 1);
            return;
        }
        if starts.as_ref().is_some_and(|s| s.iter().any(|o| !valid(*o))) {
            rep.count("ooo_frame_starts_accepted", 1);
        }
    }
    if !sorted {
        rep.count("ooo_accepted", 1);
    }
    header_match(rep, &base, o);
    frames_match(rep, &base, &o.frames);
    if o.end != End::Done {
        rep.add("packaging-refused", format!("a legal container: {:?}, bare: {:?}", o.end, base.end));
        return;
    }
    if o.frames.len() != base.frames.len() {
        rep.add("frame-count", format!("{} frames, bare {}", o.frames.len(), base.frames.len()));
    }
    let bare_was_bare = corpus::bytes(&p.file).starts_with(&[0xff, 0x0a]);
    if bare_was_bare {
        if o.scanned.len() != base.scanned.len() {
            rep.add("scanned-differs", format!("{} frames listed, bare {}", o.scanned.len(), base.scanned.len()));
        }
        for (a, c) in base.scanned.iter().zip(&o.scanned) {
            let off = map_offset(&map, a.offset as usize).map(|x| x as u64);
            let start = map_offset(&map, a.start as usize).map(|x| x as u64);
            let mut want = a.clone();
            want.offset = off.unwrap_or(0);
            want.start = start.unwrap_or(0);
            if want != *c {
                rep.add("scanned-differs", format!("listed {c:?}, from the bare codestream {want:?}"));
            }
        }
        if let Some(fl) = base.file_length {
            let fl = fl as usize;
            // The end of the last part that holds codestream, or of an empty
            // part after it.
            let want = map_end(&map, fl);
            let alt = map.iter().map(|(s, e, f)| f + (e - s)).max().unwrap_or(0);
            let trailing_empty = map.last().is_some_and(|(s, e, _)| s == e);
            if o.file_length != Some(want as u64) && !(trailing_empty && o.file_length.is_some_and(|x| x as usize >= want && x as usize <= alt)) {
                rep.add("length-differs", format!("file length {:?}, the codestream ends at {want}", o.file_length));
            }
        }
    }
}

/// What is allowed besides the multiples of what was delivered and of the
/// image's size (see drive.rs). 16 MiB hold the longest compressed profile,
/// 4 MiB a window of the entropy decoder.
const HEADER_FIXED: isize = 40 << 20;
const FRAMES_FIXED: isize = 64 << 20;
/// The longest profile, which a short stream may stand for, and its copies.
const PROFILE: isize = 4 << 28;

/// Tables that a process computes once count only when they are made: what is
/// found has to be there the second time too.
fn p12(rep: &mut Report, p: &Plan) {
    p12_once(rep, p);
    if !rep.found.is_empty() {
        let log = rep.log;
        rep.found.clear();
        p12_once(rep, p);
        rep.log = log;
    }
}

fn p12_once(rep: &mut Report, p: &Plan) {
    let x = exec(rep, p);
    let o = &x.out;
    if panics(rep, o) {
        return;
    }
    if std::env::var_os("JXLSIM_MEM").is_some() {
        eprintln!(
            "MEM {} header={} frames={} samples={} largest={} end={:?} after={:?} file={}",
            p.scenario,
            o.mem_header,
            o.mem_frames,
            o.max_samples,
            o.largest_alloc,
            o.end,
            &o.mem_after_frame,
            serde_json::to_string(&p.file).unwrap().chars().take(80).collect::<String>()
        );
    }
    let profile = match &p.file {
        FileSpec::Gen(_) | FileSpec::Hex(_) => 0,
        FileSpec::Named(_) if p.muts.is_empty() => 0,
        FileSpec::Named(_) => PROFILE,
    };
    if o.mem_header > HEADER_FIXED + profile {
        rep.add("header-memory", format!("{} bytes more than the data delivered accounts for", o.mem_header - HEADER_FIXED));
    }
    if o.mem_frames > FRAMES_FIXED + profile {
        rep.add("frame-memory", format!("{} bytes more than the data delivered and {} samples account for", o.mem_frames - FRAMES_FIXED, o.max_samples));
    }
    match p.scenario.as_str() {
        "limit" => {
            let (FileSpec::Gen(g), Some(limit)) = (&p.file, p.opts.sample_limit) else { return };
            let ch = 3 + g.extra.len();
            let dims: Vec<(usize, usize)> = std::iter::once((g.w as usize, g.h as usize)).chain(g.frames.iter().map(|f| g.fsize(f))).collect();
            let over = dims.iter().position(|(w, h)| w * h * ch > limit);
            // Narrow images count as 16 columns, and the limit itself may be refused.
            let preview = g.preview.as_ref().map(|p| (p.0 as usize, p.1 as usize));
            let under = dims.iter().chain(&preview).all(|(w, h)| w.max(&16) * h * ch < limit);
            let refused = matches!(&o.end, End::Err(_, e) if e.contains("too large"));
            if under && refused {
                rep.add("limit-refuses", format!("a limit of {limit} samples refuses {dims:?} with {ch} channels"));
            }
            if let Some(i) = over
                && !refused
            {
                rep.add("limit-ignored", format!("a limit of {limit} samples, and {:?} with {ch} channels: {}", dims[i], end_kind(&o.end)));
            }
            if over == Some(0) && o.info.is_some() {
                rep.add("limit-late", "the image was announced before it was refused".to_string());
            }
        }
        "drip" => {
            // The same in fewer, larger portions.
            let mut q = p.clone();
            q.ops = p.ops.chunks(4).map(|c| Op::Feed(c.iter().map(|o| if let Op::Feed(n, _) = o { *n } else { 0 }).sum(), 100_000)).collect();
            let y = sim::run(&q, false, false);
            rep.note(&q, &y);
            for (i, (a, b)) in y.out.mem_after_frame.iter().zip(&o.mem_after_frame).enumerate() {
                if *b > a + DRIP {
                    rep.add("grows-with-calls", format!("{b} bytes in use after frame {i}, {a} with a quarter of the calls"));
                }
            }
        }
        "flushes" => {
            let mut i = 0;
            while i < o.flushes.len() {
                let d = o.flushes[i].delivered;
                let v: Vec<isize> = o.flushes[i..].iter().take_while(|f| f.delivered == d).map(|f| f.mem).collect();
                if v.len() > 6 && v[v.len() - 1] > v[5] {
                    rep.add("grows-with-flushes", format!("{} bytes in use after {} previews, {} after 6", v[v.len() - 1], v.len(), v[5]));
                }
                i += v.len();
            }
        }
        "long" => {
            let v = &o.mem_after_frame;
            let h = v.len() / 2;
            if h >= 6 {
                let (a, b) = (v[..h].iter().max().unwrap(), v[h..].iter().max().unwrap());
                if b > a {
                    rep.add("grows-with-frames", format!("{b} bytes in use after later frames, at most {a} before"));
                }
            }
        }
        _ => {}
    }
}

/// Buffers may have grown in other steps.
const DRIP: isize = 16 << 10;

/// What a decoder shows whose output profile, which may depend on whether samples
/// are integers or floats, was settled with the other kind of samples.
fn settled(q: &Plan) -> Arc<Outcome> {
    let mut s = reference_plan(q);
    s.fmt.data = match q.fmt.data {
        DataSel::F16Le | DataSel::F16Be | DataSel::F32Le | DataSel::F32Be => DataSel::U8,
        _ => DataSel::F32Le,
    };
    let len = corpus::plan_bytes(&s).len();
    s.ops = vec![Op::Deliver(len), Op::Proc, Op::Proc, Op::SetFmt(q.fmt)];
    if s.opts.skip_preview {
        s.ops.push(Op::Seek(0));
    }
    Arc::new(sim::run(&s, false, false).out)
}

fn p17(rep: &mut Report, p: &Plan) {
    let r0 = reference(p);
    let x = exec(rep, p);
    if !must_be_done(rep, p, &r0) || panics(rep, &x.out) {
        return;
    }
    let o = &x.out;
    header_match(rep, &r0, o);
    for (k, f) in &resumable(rep, &r0, o) {
        let mut q = p.clone();
        q.fmt = f.fmt;
        let mut r = reference(&q);
        if f.bufs.is_some() && frame_at(&r, *k).is_some_and(|(_, a)| a.as_ != f.as_) {
            rep.count("profile_settled_earlier", 1);
            r = settled(&q);
        }
        match frame_at(&r, *k) {
            None => rep.add("extra-frame", format!("frame {k} does not exist")),
            Some((_, a)) => {
                if let Some(m) = diff_frame(*k, a, f) {
                    rep.add("frame-differs", format!("{m} (format {:?})", f.fmt));
                }
            }
        }
    }
    if may_fail(p, &r0, o) {
        rep.count("stopped_before_resume_point", 1);
    } else if o.end != End::Done {
        rep.add("end-differs", format!("{} instead of reaching the end", end_kind(&o.end)));
    }
}

fn p20(rep: &mut Report, p: &Plan) {
    let x = sim::run(p, true, true);
    rep.note(p, &x);
    rep.forced = x.trace.forced.clone();
    let o = &x.out;
    if panics(rep, o) {
        return;
    }
    let FileSpec::Gen(g) = &p.file else { return };
    let m = model(g);
    let r = (o.seeks > 0).then(|| reference(p));
    if r.as_ref().is_some_and(|r| may_fail(p, r, o)) {
        rep.count("stopped_before_resume_point", 1);
    } else if o.end != End::Done {
        rep.add("end-differs", format!("{} instead of reaching the end", end_kind(&o.end)));
        return;
    }
    let preview = g.preview_spec().filter(|_| !p.opts.skip_preview).map(|s| {
        let m = s.model();
        (s, m)
    });
    let count = m.len() + usize::from(preview.is_some());
    if o.seeks == 0 && o.frames.len() != count {
        rep.add("frame-count", format!("{} frames instead of {count}", o.frames.len()));
    }
    let px = x.px.as_ref().unwrap();
    let nb = 1 + g.extra.len();
    let nc = g.ncolor();
    let mut at = 0;
    for (i, (k, f)) in o.frames.iter().enumerate() {
        let (g, e) = match &preview {
            Some((s, m)) if *k == PREVIEW => (s, m.first()),
            _ => (g, m.get(*k)),
        };
        let Some(e) = e else {
            rep.add("extra-frame", format!("frame {k} does not exist"));
            return;
        };
        if f.name != e.name {
            rep.add("frame-differs", format!("frame {k} is called {:?} instead of {:?}", f.name, e.name));
        }
        let want = g.anim.map(|(num, den, _)| {
            // Ticks per second num/den, duration in milliseconds.
            (e.ticks as f64) * 1000.0 * (den as f64) / (num as f64)
        });
        if let (Some(w), Some(d)) = (want, f.duration) {
            let d = f64::from_bits(d);
            if (d - w).abs() > 1e-6 * w.abs().max(1.0) {
                rep.add("frame-differs", format!("frame {k} lasts {d} ms instead of {w}"));
            }
        } else if want.is_some() != f.duration.is_some() {
            rep.add("frame-differs", format!("frame {k}: duration {:?} instead of {want:?}", f.duration));
        }
        if f.bufs.is_none() {
            continue;
        }
        let bufs = &px[at..at + nb];
        at += nb;
        if let Some(r) = &r
            && r.scanned.get(*k).is_some_and(|s| s.start < o.bases[i])
        {
            rep.count("frames_before_resume_point", 1);
            continue;
        }
        rep.count("model_frames_compared", 1);
        let (ow, oh) = g.oriented_size();
        'planes: for c in 0..nc + g.extra.len() {
            let (b, step, off) = if c < nc { (0, nc, c) } else { (1 + c - nc, 1, 0) };
            for i in 0..ow * oh {
                let j = 4 * (i * step + off);
                let v = f32::from_le_bytes(bufs[b][j..j + 4].try_into().unwrap());
                let w = e.planes[c][i];
                if (v - w).abs() > 1e-4 * w.abs().max(1.0) {
                    rep.add(
                        "model-differs",
                        format!("frame {k}, plane {c}, ({}, {}): {v} instead of {w}", i % ow, i / ow),
                    );
                    break 'planes;
                }
            }
        }
    }
}
