//! Shrinks a failing plan. Every candidate is judged in a process of its own,
//! so that aborts and hangs can be shrunk as well.

use crate::genfile::GenSpec;
use crate::plan::*;
use crate::runner::RunKind;
use crate::sched::SchedSpec;
use crate::source::*;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Judged {
    pub class: Option<String>,
    pub msg: String,
    pub log: u64,
    pub forced: Vec<(u32, u32)>,
}

/// Judges a plan in a fresh process.
pub fn judge(p: &Plan, limit: Duration) -> Judged {
    let dir = std::env::temp_dir().join(format!("jxlsim-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("cannot create a scratch directory");
    let file = dir.join("plan.json");
    std::fs::write(&file, serde_json::to_string(p).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .arg("one")
        .arg(&file)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start myself");
    let mut so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t = Instant::now();
    let mut hang = false;
    let status = loop {
        match c.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > limit => {
                hang = true;
                let _ = c.kill();
                break c.wait().unwrap();
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let s = h.join().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    if hang {
        return Judged {
            class: Some("hang".into()),
            msg: format!("no result within {} s", limit.as_secs()),
            log: 0,
            forced: vec![],
        };
    }
    let line = s.lines().rev().find_map(|l| l.strip_prefix("R "));
    match line {
        Some(l) if status.success() => {
            let v: serde_json::Value = serde_json::from_str(l).unwrap();
            let f = v["found"].get(0);
            Judged {
                class: f.map(|f| f["class"].as_str().unwrap().to_string()),
                msg: f.map(|f| f["msg"].as_str().unwrap().to_string()).unwrap_or_default(),
                log: v["log"].as_u64().unwrap_or(0),
                forced: serde_json::from_value(v["forced"].clone()).unwrap_or_default(),
            }
        }
        _ => Judged {
            class: Some("abort".into()),
            msg: format!("the process died: {status}"),
            log: 0,
            forced: vec![],
        },
    }
}

struct Min {
    class: String,
    best: Plan,
    until: Instant,
    tries: u64,
    limit: Duration,
}

impl Min {
    fn time(&self) -> bool {
        Instant::now() < self.until
    }
    fn attempt(&mut self, q: Plan) -> bool {
        if !self.time() || q == self.best {
            return false;
        }
        self.tries += 1;
        let j = judge(&q, self.limit);
        if j.class.as_deref() == Some(self.class.as_str()) {
            self.best = q;
            true
        } else {
            false
        }
    }
    fn with(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut q = self.best.clone();
        f(&mut q);
        self.attempt(q)
    }
}

fn ddmin<T: Clone>(m: &mut Min, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
    if !get(&m.best).is_empty() {
        m.with(|q| set(q, vec![]));
    }
    let mut chunk = get(&m.best).len().div_ceil(2);
    while chunk >= 1 && m.time() {
        let mut i = 0;
        let mut any = false;
        while i < get(&m.best).len() && m.time() {
            let v = get(&m.best);
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[(i + chunk).min(v.len())..]);
            if m.with(|q| set(q, w)) {
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = if chunk == 1 { 1 } else { chunk / 2 };
    }
}

/// Merges neighbouring deliveries.
fn merge_feeds(m: &mut Min) {
    let mut i = 0;
    while i + 1 < m.best.ops.len() && m.time() {
        if let (Op::Feed(a, _), Op::Feed(b, s)) = (&m.best.ops[i], &m.best.ops[i + 1]) {
            let n = Op::Feed(a + b, *s);
            if m.with(|q| {
                q.ops[i] = n;
                q.ops.remove(i + 1);
            }) {
                continue;
            }
        }
        i += 1;
    }
}

fn shrink_file(m: &mut Min) {
    let FileSpec::Gen(g) = m.best.file.clone() else { return };
    let mut g: GenSpec = g;
    let try_g = |m: &mut Min, n: GenSpec| m.with(|q| q.file = FileSpec::Gen(n));
    while g.frames.len() > 1 && m.time() {
        let mut done = false;
        for i in (0..g.frames.len()).rev() {
            let mut n = g.clone();
            n.frames.remove(i);
            if try_g(m, n.clone()) {
                g = n;
                done = true;
                break;
            }
        }
        if !done {
            break;
        }
    }
    for i in 0..g.frames.len() {
        let mut n = g.clone();
        n.frames[i].patches.clear();
        n.frames[i].squeeze.clear();
        n.frames[i].rct = None;
        n.frames[i].splits = 0;
        n.frames[i].permute = false;
        n.frames[i].local_tree = false;
        n.frames[i].name.clear();
        if try_g(m, n.clone()) {
            g = n;
        }
    }
    let mut n = g.clone();
    n.orient = 1;
    if try_g(m, n.clone()) {
        g = n;
    }
    let _ = g;
}

pub fn minimise(p: &Plan, class: &str, budget: Duration) -> (Plan, u64) {
    let mut m = Min {
        class: class.into(),
        best: p.clone(),
        until: Instant::now() + budget,
        tries: 0,
        limit: if class == "hang" { Duration::from_secs(20) } else { Duration::from_secs(30) },
    };
    let plain = Plan::plain(&p.prop, p.file.clone());
    m.with(|q| q.also.clear());
    ddmin(&mut m, |p| p.also.clone(), |p, v| p.also = v);
    m.with(|q| q.src = SrcSpec::plain());
    m.with(|q| {
        q.runner = plain.runner;
        q.sched = SchedSpec::Fixed;
    });
    m.with(|q| q.opts = plain.opts);
    m.with(|q| q.fmt = plain.fmt);
    m.with(|q| q.wrap = None);
    m.with(|q| q.api = Api::Typed);
    m.with(|q| q.retry_all = false);
    m.with(|q| q.retry = false);
    m.with(|q| q.alloc = None);
    m.with(|q| {
        q.pad = 0;
        q.fill = 0xff;
    });
    ddmin(&mut m, |p| p.ops.clone(), |p, v| p.ops = v);
    ddmin(&mut m, |p| p.muts.clone(), |p, v| p.muts = v);
    ddmin(&mut m, |p| p.src.faults.clone(), |p, v| p.src.faults = v);
    merge_feeds(&mut m);
    m.with(|q| q.src.short = 0);
    m.with(|q| q.src.short_skip = false);
    m.with(|q| q.src.est = Estimate::Exact);
    m.with(|q| q.src.kind = SrcKind::Custom);
    m.with(|q| q.src.dead_after = None);
    m.with(|q| q.runner.fault = None);
    m.with(|q| q.runner.kind = RunKind::Seq);
    if !matches!(m.best.runner.kind, RunKind::Seq) {
        m.with(|q| q.runner.kind = RunKind::Pool(2));
        m.with(|q| q.hw = 2);
    }
    m.with(|q| q.sched = SchedSpec::Fixed);
    if m.best.wrap.is_some() {
        ddmin(
            &mut m,
            |p| p.wrap.as_ref().unwrap().boxes.iter().filter(|b| matches!(b, BoxSpec::Other(..))).cloned().collect(),
            |p, v| {
                let w = p.wrap.as_mut().unwrap();
                w.boxes.retain(|b| !matches!(b, BoxSpec::Other(..)) || v.contains(b));
            },
        );
    }
    shrink_file(&mut m);
    // A shorter schedule: the list of forced switches.
    if m.best.sched != SchedSpec::Fixed && m.time() {
        let forced = judge(&m.best, m.limit).forced;
        if m.with(|q| q.sched = SchedSpec::Forced(forced)) {
            ddmin(
                &mut m,
                |p| match &p.sched {
                    SchedSpec::Forced(v) => v.clone(),
                    _ => vec![],
                },
                |p, v| p.sched = SchedSpec::Forced(v),
            );
        }
    }
    ddmin(&mut m, |p| p.ops.clone(), |p, v| p.ops = v);
    (m.best, m.tries)
}
