//! The simulated input: a byte stream of which a growing prefix has been
//! delivered, behind each of the ways a caller can hand it to the decoder, and
//! with the faults a real source has (short reads, wrong size estimates,
//! transient and permanent errors, seeks past the end).

use crate::rng::{Rng, hash_bytes, mix};
use jxl::api::{JxlBitstreamInput, JxlDecoderInner};
use serde::{Deserialize, Serialize};
use std::io::{self, BufReader, IoSliceMut, Read, Seek, SeekFrom};
use std::sync::Arc;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrcKind {
    /// `&[u8]` over the bytes delivered so far and not yet consumed.
    Slice,
    /// A custom input implementing every method.
    Custom,
    /// A custom input that relies on the provided `skip`.
    CustomDefaultSkip,
    /// std's BufReader with this capacity over a simulated file.
    BufReader(usize),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Estimate {
    Exact,
    /// Always 0.
    Zero,
    /// A random lower value.
    Under,
    /// A random higher value.
    Over,
    /// The size of the whole file, delivered or not.
    Total,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum IoErr {
    Interrupted,
    WouldBlock,
    UnexpectedEof,
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SrcSpec {
    pub kind: SrcKind,
    /// Reads return at most this many bytes, at random; 0 = never short.
    pub short: usize,
    /// Skips are short as well (custom inputs only).
    pub short_skip: bool,
    pub est: Estimate,
    /// Source calls (counted from 0) that fail, and how.
    pub faults: Vec<(u64, IoErr)>,
    /// From this call on, every call fails (a dead device).
    pub dead_after: Option<u64>,
    pub seed: u64,
}

impl SrcSpec {
    pub fn plain() -> Self {
        SrcSpec {
            kind: SrcKind::Slice,
            short: 0,
            short_skip: false,
            est: Estimate::Exact,
            faults: vec![],
            dead_after: None,
            seed: 0,
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct SrcStats {
    pub calls: u64,
    pub reads: u64,
    pub short_reads: u64,
    pub zero_reads: u64,
    pub skips: u64,
    pub seeks: u64,
    pub seeks_past_end: u64,
    pub lost_places: u64,
    pub wrong_estimates: u64,
    pub errors: u64,
    pub hash: u64,
}

pub struct Pipe {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    /// Bytes delivered so far: everything below this offset can be read.
    pub mark: usize,
    pub spec: SrcSpec,
    rng: Rng,
    pub st: SrcStats,
    /// Livelock guard: calls made during the current decoder call.
    pub calls_in_op: u64,
    pub call_cap: u64,
    pub high: u64,
}

impl Pipe {
    fn call(&mut self, what: u64) -> io::Result<()> {
        let n = self.st.calls;
        self.st.calls += 1;
        self.calls_in_op += 1;
        self.st.hash = mix(self.st.hash ^ what);
        if self.calls_in_op > self.call_cap {
            panic!("livelock: {} input calls within one decoder call", self.calls_in_op);
        }
        if self.spec.dead_after.is_some_and(|d| n >= d) {
            self.st.errors += 1;
            return Err(io::Error::other("simulated dead device"));
        }
        if let Some((_, k)) = self.spec.faults.iter().find(|(c, _)| *c == n) {
            self.st.errors += 1;
            return Err(match k {
                IoErr::Interrupted => io::Error::from(io::ErrorKind::Interrupted),
                IoErr::WouldBlock => io::Error::from(io::ErrorKind::WouldBlock),
                IoErr::UnexpectedEof => io::Error::from(io::ErrorKind::UnexpectedEof),
                IoErr::Other => io::Error::other("simulated I/O error"),
            });
        }
        Ok(())
    }
    fn left(&self) -> usize {
        self.mark.saturating_sub(self.pos as usize)
    }
    fn estimate(&mut self) -> usize {
        let e = self.left();
        let r = match self.spec.est {
            Estimate::Exact => e,
            Estimate::Zero => 0,
            Estimate::Under => self.rng.below(e + 1),
            Estimate::Over => e + self.rng.logsize(1 << 20),
            Estimate::Total => self.data.len().saturating_sub(self.pos as usize),
        };
        if r != e {
            self.st.wrong_estimates += 1;
        }
        r
    }
    fn fill(&mut self, bufs: &mut [IoSliceMut]) -> usize {
        let want: usize = bufs.iter().map(|b| b.len()).sum();
        let full = want.min(self.left());
        let n = if self.spec.short > 0 && full > 0 {
            full.min(self.rng.range(1, self.spec.short))
        } else {
            full
        };
        self.st.reads += 1;
        if n < full {
            self.st.short_reads += 1;
        }
        if n == 0 && want > 0 {
            self.st.zero_reads += 1;
        }
        let start = self.pos as usize;
        let mut src = if n > 0 { &self.data[start..start + n] } else { &[][..] };
        for b in bufs.iter_mut() {
            let k = b.len().min(src.len());
            b[..k].copy_from_slice(&src[..k]);
            src = &src[k..];
        }
        self.pos += n as u64;
        self.high = self.high.max(self.pos);
        self.st.hash = mix(self.st.hash ^ n as u64);
        n
    }
}

pub type Shared = Rc<RefCell<Pipe>>;

pub struct Custom(pub Shared);
pub struct CustomDefaultSkip(pub Shared);
pub struct SimFile(pub Shared);

impl JxlBitstreamInput for Custom {
    fn available_bytes(&mut self) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        p.call(1)?;
        Ok(p.estimate())
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        p.call(2)?;
        Ok(p.fill(bufs))
    }
    fn skip(&mut self, bytes: usize) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        p.call(3)?;
        p.st.skips += 1;
        let mut n = bytes.min(p.left());
        if p.spec.short_skip && n > 1 {
            n = p.rng.range(1, n);
        }
        p.pos += n as u64;
        p.high = p.high.max(p.pos);
        Ok(n)
    }
}

impl JxlBitstreamInput for CustomDefaultSkip {
    fn available_bytes(&mut self) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        p.call(1)?;
        Ok(p.estimate())
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        p.call(2)?;
        Ok(p.fill(bufs))
    }
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        p.call(2)?;
        Ok(p.fill(&mut [IoSliceMut::new(buf)]))
    }
}

impl Seek for SimFile {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut p = self.0.borrow_mut();
        if let Err(e) = p.call(4) {
            // A reader that has moved to find the end of its input and cannot
            // go back has lost its place.
            p.st.lost_places += matches!(to, SeekFrom::Start(_)) as u64;
            return Err(e);
        }
        p.st.seeks += 1;
        let np = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => p.mark as i128 + d as i128,
            SeekFrom::Current(d) => p.pos as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        if np > p.mark as i128 {
            p.st.seeks_past_end += 1;
        }
        p.pos = np as u64;
        Ok(p.pos)
    }
}

pub enum Front {
    Slice,
    Custom(Custom),
    CustomDefaultSkip(CustomDefaultSkip),
    Buf(BufReader<SimFile>),
}

/// The input as the driver holds it.
pub struct Source {
    pub pipe: Shared,
    pub front: Front,
}

impl Source {
    pub fn new(data: Arc<Vec<u8>>, spec: &SrcSpec) -> Self {
        let cap = 400_000 + 64 * data.len() as u64;
        let pipe = Rc::new(RefCell::new(Pipe {
            data,
            pos: 0,
            mark: 0,
            spec: spec.clone(),
            rng: Rng::new(spec.seed ^ 0x50_0c_ce),
            st: SrcStats::default(),
            calls_in_op: 0,
            call_cap: cap,
            high: 0,
        }));
        let front = match spec.kind {
            SrcKind::Slice => Front::Slice,
            SrcKind::Custom => Front::Custom(Custom(pipe.clone())),
            SrcKind::CustomDefaultSkip => {
                Front::CustomDefaultSkip(CustomDefaultSkip(pipe.clone()))
            }
            SrcKind::BufReader(c) => {
                Front::Buf(BufReader::with_capacity(c.max(1), SimFile(pipe.clone())))
            }
        };
        Source { pipe, front }
    }

    pub fn grant(&mut self, n: usize) -> bool {
        let mut p = self.pipe.borrow_mut();
        let m = p.mark;
        p.mark = p.mark.saturating_add(n).min(p.data.len());
        p.mark > m
    }
    pub fn delivered(&self) -> usize {
        self.pipe.borrow().mark
    }
    pub fn all_delivered(&self) -> bool {
        let p = self.pipe.borrow();
        p.mark >= p.data.len()
    }
    pub fn set_mark(&mut self, m: usize) {
        let mut p = self.pipe.borrow_mut();
        p.mark = m.min(p.data.len());
    }

    /// Repositions the source (the caller's reaction to a seek target).
    pub fn reposition(&mut self, pos: u64, mark: usize) {
        {
            let mut p = self.pipe.borrow_mut();
            p.pos = pos;
            p.mark = mark.min(p.data.len());
        }
        if let Front::Buf(_) = self.front {
            let cap = match self.pipe.borrow().spec.kind {
                SrcKind::BufReader(c) => c.max(1),
                _ => unreachable!(),
            };
            self.front = Front::Buf(BufReader::with_capacity(cap, SimFile(self.pipe.clone())));
        }
    }

    /// Bytes of the file the caller regards as taken by the decoder. For a
    /// BufReader this includes what sits in the reader's own buffer.
    pub fn position(&self) -> u64 {
        self.pipe.borrow().pos
    }

    pub fn with<T>(&mut self, f: impl FnOnce(&mut dyn DynInput) -> T) -> T {
        self.pipe.borrow_mut().calls_in_op = 0;
        match &mut self.front {
            Front::Slice => {
                let (data, pos, mark) = {
                    let p = self.pipe.borrow();
                    (p.data.clone(), p.pos as usize, p.mark)
                };
                let mut s: &[u8] = &data[pos.min(mark)..mark];
                let before = s.len();
                let r = f(&mut s);
                let used = before - s.len();
                let mut p = self.pipe.borrow_mut();
                p.pos += used as u64;
                p.high = p.high.max(p.pos);
                p.st.calls += 1;
                p.st.hash = mix(p.st.hash ^ used as u64);
                r
            }
            Front::Custom(c) => f(c),
            Front::CustomDefaultSkip(c) => f(c),
            Front::Buf(b) => f(b),
        }
    }
}

/// Object-safe view of an input, so that both decoder APIs can be driven.
pub trait DynInput {
    fn as_input(&mut self) -> &mut dyn JxlBitstreamInput;
}
impl<T: JxlBitstreamInput> DynInput for T {
    fn as_input(&mut self) -> &mut dyn JxlBitstreamInput {
        self
    }
}

/// `JxlDecoder::process` wants a sized input.
pub struct DynRef<'a>(pub &'a mut dyn JxlBitstreamInput);
impl JxlBitstreamInput for DynRef<'_> {
    fn available_bytes(&mut self) -> io::Result<usize> {
        let _o = crate::alloc::outside();
        self.0.available_bytes()
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> io::Result<usize> {
        let _o = crate::alloc::outside();
        self.0.read(bufs)
    }
    fn skip(&mut self, bytes: usize) -> io::Result<usize> {
        let _o = crate::alloc::outside();
        self.0.skip(bytes)
    }
}

pub fn content_hash(d: &[u8]) -> u64 {
    hash_bytes(7, d)
}

#[allow(dead_code)]
fn _inner_is_public(_: &JxlDecoderInner) {}
