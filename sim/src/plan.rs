//! A plan is everything one simulated run depends on. Plans are generated from
//! a seed, executed, minimised, and written as replay files.

use crate::runner::{RunKind, RunnerSpec};
use crate::sched::SchedSpec;
use crate::source::SrcSpec;
use jxl::api::{
    Endianness, JxlColorType, JxlDataFormat, JxlDecoderOptions, JxlPixelFormat,
};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileSpec {
    /// A file of the repository's test corpus.
    Named(String),
    /// A file written by the generator from this description.
    Gen(crate::genfile::GenSpec),
    /// Literal bytes, in hexadecimal.
    Hex(String),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum LenMode {
    L32,
    L64,
    /// Length 0: until the end of the file. Only for the last box.
    ToEnd,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BoxSpec {
    Jxlc(LenMode),
    /// Index, codestream range, last flag.
    Jxlp(u32, usize, usize, bool, LenMode),
    /// Type, content length.
    Other([u8; 4], usize, LenMode),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WrapSpec {
    pub version: u32,
    pub boxes: Vec<BoxSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mutation {
    Truncate(usize),
    Flip(usize, u8),
    Set(usize, u8),
    Delete(usize, usize),
    Insert(usize, Vec<u8>),
    /// Copies `len` bytes from one place to another (overwriting).
    Copy(usize, usize, usize),
    Append(usize, u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ColorSel {
    Default,
    WithAlpha,
    Bgr,
    BgrAlpha,
    Ignore,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DataSel {
    U8,
    U16Le,
    U16Be,
    F16Le,
    F16Be,
    F32Le,
    F32Be,
    U16Bits(u8),
    U8Bits(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ExtraSel {
    Same,
    Nothing,
    /// Data types and presence drawn from this seed.
    Mixed(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fmt {
    pub color: ColorSel,
    pub data: DataSel,
    pub extra: ExtraSel,
}

impl Fmt {
    pub fn f32() -> Self {
        Fmt {
            color: ColorSel::Default,
            data: DataSel::F32Le,
            extra: ExtraSel::Same,
        }
    }
}

pub fn data_format(d: DataSel) -> JxlDataFormat {
    use Endianness::*;
    match d {
        DataSel::U8 => JxlDataFormat::U8 { bit_depth: 8 },
        DataSel::U8Bits(b) => JxlDataFormat::U8 { bit_depth: b },
        DataSel::U16Le => JxlDataFormat::U16 { endianness: LittleEndian, bit_depth: 16 },
        DataSel::U16Be => JxlDataFormat::U16 { endianness: BigEndian, bit_depth: 16 },
        DataSel::U16Bits(b) => JxlDataFormat::U16 { endianness: LittleEndian, bit_depth: b },
        DataSel::F16Le => JxlDataFormat::F16 { endianness: LittleEndian },
        DataSel::F16Be => JxlDataFormat::F16 { endianness: BigEndian },
        DataSel::F32Le => JxlDataFormat::F32 { endianness: LittleEndian },
        DataSel::F32Be => JxlDataFormat::F32 { endianness: BigEndian },
    }
}

/// The requested format, made concrete from the decoder's default one.
pub fn pixel_format(f: &Fmt, def: &JxlPixelFormat, alpha_channel: Option<usize>) -> JxlPixelFormat {
    let base = def.color_type;
    let (color_type, color) = match f.color {
        ColorSel::Default => (base, true),
        ColorSel::WithAlpha => (base.add_alpha(), true),
        ColorSel::Bgr => (
            match base {
                JxlColorType::Rgb => JxlColorType::Bgr,
                JxlColorType::Rgba => JxlColorType::Bgra,
                o => o,
            },
            true,
        ),
        ColorSel::BgrAlpha => (
            match base {
                JxlColorType::Rgb | JxlColorType::Rgba => JxlColorType::Bgra,
                o => o.add_alpha(),
            },
            true,
        ),
        ColorSel::Ignore => (base, false),
    };
    let n = def.extra_channel_format.len();
    let mut extra: Vec<Option<JxlDataFormat>> = match f.extra {
        ExtraSel::Same => vec![Some(data_format(f.data)); n],
        ExtraSel::Nothing => vec![None; n],
        ExtraSel::Mixed(s) => {
            let mut r = crate::rng::Rng::new(s);
            (0..n)
                .map(|_| {
                    const ALL: [DataSel; 5] = [
                        DataSel::U8,
                        DataSel::U16Le,
                        DataSel::F16Be,
                        DataSel::F32Le,
                        DataSel::U16Be,
                    ];
                    let d = *r.pick(&ALL);
                    r.chance(3, 4).then(|| data_format(d))
                })
                .collect()
        }
    };
    if color && color_type.has_alpha() && let Some(a) = alpha_channel {
        extra[a] = None;
    }
    let mut color_data_format = color.then(|| data_format(f.data));
    if color_data_format.is_none() && extra.iter().all(|x| x.is_none()) {
        color_data_format = Some(data_format(f.data));
    }
    JxlPixelFormat {
        color_type,
        color_data_format,
        extra_channel_format: extra,
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct DecOpts {
    pub orient: bool,
    pub spot: bool,
    pub skip_preview: bool,
    pub high_precision: bool,
    pub premultiply: bool,
    pub scan_only: bool,
    pub sample_limit: Option<usize>,
    pub intensity: Option<u32>,
}

impl DecOpts {
    pub fn plain() -> Self {
        DecOpts {
            orient: true,
            spot: true,
            skip_preview: true,
            high_precision: false,
            premultiply: false,
            scan_only: false,
            sample_limit: None,
            intensity: None,
        }
    }
    pub fn make(&self) -> JxlDecoderOptions {
        let mut o = JxlDecoderOptions::default();
        o.adjust_orientation = self.orient;
        o.render_spot_colors = self.spot;
        o.skip_preview = self.skip_preview;
        o.high_precision = self.high_precision;
        o.premultiply_output = self.premultiply;
        o.scan_frames_only = self.scan_only;
        o.sample_limit = self.sample_limit;
        o.desired_intensity_target = self.intensity.map(|x| x as f32);
        o
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum BadBuf {
    /// One buffer too many.
    Extra,
    /// No buffers at all.
    Missing,
    /// One row too few.
    FewRows,
    /// One byte per row too few.
    Narrow,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Deliver this many more bytes, then make up to `steps` decoder calls
    /// (stopping when more input is requested).
    Feed(usize, u32),
    /// That many times: call the decoder until it asks for input, then deliver
    /// exactly what it asked for.
    FeedHint(u32),
    /// Deliver bytes without calling the decoder.
    Deliver(usize),
    /// One decoder call without new input.
    Proc,
    /// Ask for the pixels decoded so far.
    Flush,
    /// The same with unusable buffers: must be refused and change nothing.
    FlushBad(BadBuf),
    /// The caller is no longer interested in the current (or next) frame.
    Skip,
    /// Jump to this visible frame; what was delivered stays delivered.
    Seek(usize),
    /// Jump to this visible frame; nothing after its start is delivered yet.
    SeekCold(usize),
    /// Learn all seek targets from a separate scan-only pass over the file.
    Scan,
    /// Between frames: ask for another output format.
    SetFmt(Fmt),
    /// Drop the decoder and start over with a new one on the same file.
    Restart,
    /// Drop the decoder; the run ends here.
    Abandon,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Api {
    /// The typestate API.
    Typed,
    /// The low-level API.
    Inner,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AllocFault {
    pub min: usize,
    pub at: u64,
    pub run: u64,
    /// Chosen by the place that asks for it first, then by number.
    #[serde(default)]
    pub by_site: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    /// Which of the property's scenarios this is.
    pub scenario: String,
    pub file: FileSpec,
    pub wrap: Option<WrapSpec>,
    pub muts: Vec<Mutation>,
    pub opts: DecOpts,
    pub fmt: Fmt,
    pub api: Api,
    pub src: SrcSpec,
    pub runner: RunnerSpec,
    pub sched: SchedSpec,
    pub hw: usize,
    pub entropy: u64,
    /// Extra bytes around and between buffer rows, and the fill pattern.
    pub pad: usize,
    pub fill: u8,
    pub ops: Vec<Op>,
    /// Retry decoder calls that failed because of the source (low-level API).
    pub retry: bool,
    /// Also repeat calls that failed for other reasons.
    #[serde(default)]
    pub retry_all: bool,
    pub alloc: Option<AllocFault>,
    /// Scenario-specific numbers.
    pub extra: Vec<u64>,
    /// Further decoders used at the same time, and how they are mixed:
    /// 0 = a thread each, odd = one thread, calls interleaved with this seed,
    /// even = the same with every call on a thread of its own.
    #[serde(default)]
    pub also: Vec<Plan>,
    #[serde(default)]
    pub mixing: u64,
}

impl Plan {
    pub fn plain(prop: &str, file: FileSpec) -> Self {
        Plan {
            prop: prop.into(),
            scenario: "plain".into(),
            file,
            wrap: None,
            muts: vec![],
            opts: DecOpts::plain(),
            fmt: Fmt::f32(),
            api: Api::Typed,
            src: SrcSpec::plain(),
            runner: RunnerSpec {
                kind: RunKind::None,
                fault: None,
            },
            sched: SchedSpec::Fixed,
            hw: 4,
            entropy: 1,
            pad: 0,
            fill: 0xff,
            ops: vec![],
            retry: false,
            retry_all: false,
            alloc: None,
            extra: vec![],
            also: vec![],
            mixing: 0,
        }
    }
}
