//! Runs plans in processes in which nothing was ever decoded before: a child
//! forked before anything else happens forks one more for each run.

use crate::drive::Outcome;
use crate::judge::{Found, Report, end_kind, forked};
use crate::plan::Plan;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Mutex, OnceLock};

struct Ends {
    to: std::fs::File,
    from: std::fs::File,
}

static ENDS: OnceLock<Mutex<Ends>> = OnceLock::new();

fn send(f: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    f.write_all(&(b.len() as u64).to_le_bytes())?;
    f.write_all(b)
}

fn receive(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 8];
    f.read_exact(&mut n)?;
    let mut v = vec![0; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut v)?;
    Ok(v)
}

/// To be called first thing, while there is one thread.
pub fn start() {
    // SAFETY: plain pipes and a fork while the process has one thread; each end
    // is owned by one file.
    unsafe {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        assert!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) == 0, "pipe");
        assert!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(a[1]);
            libc::close(b[0]);
            let mut from = std::fs::File::from_raw_fd(a[0]);
            let mut to = std::fs::File::from_raw_fd(b[1]);
            while let Ok(t) = receive(&mut from) {
                let p: Plan = serde_json::from_slice(&t).expect("bad plan");
                let r = forked(|| digests(&p)).ok();
                if send(&mut to, &serde_json::to_vec(&r).unwrap()).is_err() {
                    break;
                }
            }
            libc::_exit(0);
        }
        libc::close(a[0]);
        libc::close(b[1]);
        let ends = Ends { to: std::fs::File::from_raw_fd(a[1]), from: std::fs::File::from_raw_fd(b[0]) };
        let _ = ENDS.set(Mutex::new(ends));
    }
}

/// What each decoder of a plan delivers, line by line, in a fresh process.
/// Nothing if the process did not survive.
pub fn run(p: &Plan) -> Option<Vec<Vec<String>>> {
    let mut e = ENDS.get()?.lock().unwrap();
    send(&mut e.to, &serde_json::to_vec(p).unwrap()).ok()?;
    let r: Option<Report> = serde_json::from_slice(&receive(&mut e.from).ok()?).ok()?;
    Some(r?.found.into_iter().map(|f| f.msg.split('\n').map(String::from).collect()).collect())
}

fn digests(p: &Plan) -> Report {
    let x = crate::sim::run(p, true, false);
    let mut rep = Report::default();
    for o in std::iter::once(&x.out).chain(&x.also) {
        rep.found.push(Found { class: "digest".into(), msg: digest(o).join("\n") });
    }
    rep
}

fn digest(o: &Outcome) -> Vec<String> {
    let mut v = vec![format!("header {:?} {:?} {:?}", o.info, o.profiles, o.default_format)];
    v.extend(o.flushes.iter().map(|f| format!("preview {:x}", f.hash)));
    v.extend(o.frames.iter().map(|f| format!("frame {f:?}")));
    v.extend(o.scanned.iter().map(|s| format!("listed {s:?}")));
    v.push(format!("end {} {:?}", end_kind(&o.end), o.file_length));
    v.iter().map(|l| l.replace('\n', " ")).collect()
}
