//! Input files: the repository's own test corpus, generated files, container
//! packaging, and corruption.

use crate::plan::*;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex, OnceLock};

pub fn repo_root() -> PathBuf {
    PathBuf::from(std::env::var("JXLSIM_REPO").unwrap_or_else(|_| "/repo".into()))
}

pub struct Entry {
    pub name: String,
    pub len: usize,
}

pub fn list() -> &'static Vec<Entry> {
    static L: OnceLock<Vec<Entry>> = OnceLock::new();
    L.get_or_init(|| {
        let root = repo_root();
        let mut v = vec![];
        for dir in [
            "jxl/resources/test",
            "jxl/resources/test/conformance_test_images",
            "jxl/tests/testdata",
        ] {
            let Ok(rd) = std::fs::read_dir(root.join(dir)) else {
                continue;
            };
            for e in rd.flatten() {
                let p = e.path();
                if p.extension().is_some_and(|x| x == "jxl") {
                    let name = format!("{dir}/{}", p.file_name().unwrap().to_string_lossy());
                    let len = e.metadata().map(|m| m.len() as usize).unwrap_or(0);
                    v.push(Entry { name, len });
                }
            }
        }
        v.sort_by(|a, b| a.name.cmp(&b.name));
        v
    })
}

fn load(name: &str) -> Arc<Vec<u8>> {
    static C: OnceLock<Mutex<HashMap<String, Arc<Vec<u8>>>>> = OnceLock::new();
    let m = C.get_or_init(Default::default);
    if let Some(d) = m.lock().unwrap().get(name) {
        return d.clone();
    }
    let d = Arc::new(
        std::fs::read(repo_root().join(name)).unwrap_or_else(|e| panic!("cannot read {name}: {e}")),
    );
    m.lock().unwrap().insert(name.into(), d.clone());
    d
}

pub fn bytes(f: &FileSpec) -> Arc<Vec<u8>> {
    match f {
        FileSpec::Named(n) => load(n),
        FileSpec::Gen(g) => crate::genfile::cached(g),
        FileSpec::Hex(h) => Arc::new(
            (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                .collect(),
        ),
    }
}

const CONTAINER: [u8; 12] = [0, 0, 0, 0xc, b'J', b'X', b'L', b' ', 0xd, 0xa, 0x87, 0xa];

/// The codestream inside a file (independent of the decoder's own parser).
pub fn codestream(file: &[u8]) -> Option<Vec<u8>> {
    if file.starts_with(&[0xff, 0x0a]) {
        return Some(file.to_vec());
    }
    if !file.starts_with(&CONTAINER) {
        return None;
    }
    let mut parts: Vec<(u32, Vec<u8>)> = vec![];
    let mut pos = CONTAINER.len();
    while pos + 8 <= file.len() {
        let len32 = u32::from_be_bytes(file[pos..pos + 4].try_into().unwrap()) as u64;
        let ty = &file[pos + 4..pos + 8];
        let (hdr, len) = match len32 {
            0 => (8, (file.len() - pos) as u64),
            1 => {
                if pos + 16 > file.len() {
                    return None;
                }
                (16, u64::from_be_bytes(file[pos + 8..pos + 16].try_into().unwrap()))
            }
            l => (8, l),
        };
        let end = pos.checked_add(len as usize)?;
        if end > file.len() || len < hdr as u64 {
            return None;
        }
        let body = &file[pos + hdr..end];
        match ty {
            b"jxlc" => parts.push((0, body.to_vec())),
            b"jxlp" => {
                let i = u32::from_be_bytes(body[..4].try_into().ok()?) & 0x7fff_ffff;
                parts.push((i, body[4..].to_vec()));
            }
            _ => {}
        }
        pos = end;
    }
    if parts.is_empty() {
        return None;
    }
    parts.sort_by_key(|p| p.0);
    Some(parts.into_iter().flat_map(|p| p.1).collect())
}

fn push_box(out: &mut Vec<u8>, ty: &[u8; 4], body: &[&[u8]], mode: LenMode) {
    let n: usize = body.iter().map(|b| b.len()).sum();
    match mode {
        LenMode::L32 => out.extend_from_slice(&((n + 8) as u32).to_be_bytes()),
        LenMode::L64 => out.extend_from_slice(&1u32.to_be_bytes()),
        LenMode::ToEnd => out.extend_from_slice(&0u32.to_be_bytes()),
    }
    out.extend_from_slice(ty);
    if mode == LenMode::L64 {
        out.extend_from_slice(&((n + 16) as u64).to_be_bytes());
    }
    for b in body {
        out.extend_from_slice(b);
    }
}

/// Packages a codestream; also returns where each codestream byte range lies
/// in the file, as (codestream start, codestream end, file offset).
pub fn wrap(cs: &[u8], w: &WrapSpec) -> (Vec<u8>, Vec<(usize, usize, usize)>) {
    let mut out = CONTAINER.to_vec();
    let mut map = vec![];
    push_box(
        &mut out,
        b"ftyp",
        &[b"jxl ", &w.version.to_be_bytes(), b"jxl "],
        LenMode::L32,
    );
    for b in &w.boxes {
        match b {
            BoxSpec::Jxlc(m) => {
                push_box(&mut out, b"jxlc", &[cs], *m);
                map.push((0, cs.len(), out.len() - cs.len()));
            }
            BoxSpec::Jxlp(i, s, e, last, m) => {
                let (s, e) = ((*s).min(cs.len()), (*e).min(cs.len()));
                let idx = i | if *last { 0x8000_0000 } else { 0 };
                push_box(&mut out, b"jxlp", &[&idx.to_be_bytes(), &cs[s..e]], *m);
                map.push((s, e, out.len() - (e - s)));
            }
            BoxSpec::Other(ty, n, m) => {
                // Content that looks like box headers and codestream signatures.
                let pat = b"\0\0\0\x10jxlc\xff\x0a\0\0\0\x0cjxlp\x80\0\0\0";
                let body: Vec<u8> = (0..*n).map(|i| pat[i % pat.len()]).collect();
                push_box(&mut out, ty, &[&body], *m);
            }
        }
    }
    (out, map)
}

pub fn mutate(d: &mut Vec<u8>, m: &Mutation) {
    match m {
        Mutation::Truncate(n) => d.truncate(*n),
        Mutation::Flip(p, b) => {
            if let Some(x) = d.get_mut(*p) {
                *x ^= 1 << (b & 7);
            }
        }
        Mutation::Set(p, v) => {
            if let Some(x) = d.get_mut(*p) {
                *x = *v;
            }
        }
        Mutation::Delete(p, n) => {
            let s = (*p).min(d.len());
            let e = (s + n).min(d.len());
            d.drain(s..e);
        }
        Mutation::Insert(p, v) => {
            let s = (*p).min(d.len());
            d.splice(s..s, v.iter().copied());
        }
        Mutation::Copy(from, len, to) => {
            if !d.is_empty() {
                let f = (*from).min(d.len() - 1);
                let l = (*len).min(d.len() - f);
                let t = (*to).min(d.len() - l);
                d.copy_within(f..f + l, t);
            }
        }
        Mutation::Append(n, v) => {
            let l = d.len();
            d.resize(l + n, *v);
        }
    }
}

/// The bytes a plan feeds to the decoder.
pub fn plan_bytes(p: &Plan) -> Arc<Vec<u8>> {
    let base = bytes(&p.file);
    if p.wrap.is_none() && p.muts.is_empty() {
        return base;
    }
    let mut d = match &p.wrap {
        Some(w) => {
            let cs = codestream(&base).unwrap_or_else(|| base.to_vec());
            wrap(&cs, w).0
        }
        None => base.to_vec(),
    };
    for m in &p.muts {
        mutate(&mut d, m);
    }
    Arc::new(d)
}
