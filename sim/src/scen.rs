//! Draws the simulated runs of each property: which file, how it is packaged
//! and corrupted, how it is delivered, what the caller does, how many threads
//! decode it under which schedule, and which faults strike when.

use crate::corpus;
use crate::genfile::{self, Want};
use crate::judge;
use crate::plan::*;
use crate::rng::{Rng, derive, tag};
use crate::runner::*;
use crate::sched::SchedSpec;
use crate::source::*;

/// Approximate cost of one decode in milliseconds, for files that are not cheap.
const COST: &[(&str, usize)] = &[
    ("candle.jxl", 126),
    ("alpha_nonpremultiplied.jxl", 95),
    ("alpha_premultiplied.jxl", 131),
    ("alpha_triangles.jxl", 53),
    ("animation_icos4d.jxl", 109),
    ("animation_newtons_cradle.jxl", 267),
    ("animation_spline.jxl", 394),
    ("bicycles.jxl", 76),
    ("bike.jxl", 311),
    ("blendmodes.jxl", 241),
    ("cafe.jxl", 110),
    ("cmyk_layers.jxl", 96),
    ("delta_palette.jxl", 86),
    ("grayscale_public_university.jxl", 355),
    ("lossless_pfm.jxl", 69),
    ("lz77_flower.jxl", 104),
    ("noise.jxl", 42),
    ("patches.jxl", 199),
    ("progressive.jxl", 933),
    ("spot.jxl", 277),
    ("sunset_logo.jxl", 434),
    ("dice.jxl", 82),
    ("efb.jxl", 103),
    ("green_queen_modular_e3.jxl", 115),
    ("has_permutation.jxl", 84),
    ("has_permutation_with_container.jxl", 79),
    ("hdr_hlg_test.jxl", 77),
    ("hdr_pq_test.jxl", 84),
    ("issue648_palette0.jxl", 431),
    ("issue728_minimal.jxl", 532),
    ("issue772_blendbug.jxl", 102),
    ("issue865_large_toc.jxl", 1575),
    ("multiple_layers_noise_spline.jxl", 354),
    ("multiple_lf_420.jxl", 170),
    ("progressive_ac.jxl", 235),
    ("tirr_photo.jxl", 4038),
    ("tree_max_property_20.jxl", 146),
    ("zoltan_tasi_unsplash.jxl", 79),
    ("5_frames_numbered.jxl", 46),
];

fn cost(name: &str) -> usize {
    let base = name.rsplit('/').next().unwrap();
    COST.iter()
        .find(|(n, _)| *n == base)
        .map(|(_, c)| *c)
        .unwrap_or(12)
}

/// Files that do not decode to the end (kept for the corruption scenarios).
const BROKEN: &[&str] = &[
    "invalid_animated_ooo_jxlp.jxl",
    "fuzzer_smallbuffer_overflow.jxl",
    "ooo_jxlp_with_trailing_bytes.jxl",
    "zero_length_skippable_box.jxl",
];

pub fn is_broken(name: &str) -> bool {
    BROKEN.iter().any(|b| name.ends_with(b))
}

const ANIMATED: &[&str] = &[
    "conformance_test_images/animation_icos4d.jxl",
    "conformance_test_images/animation_newtons_cradle.jxl",
    "conformance_test_images/animation_spline.jxl",
    "cropped_traffic_light.jxl",
    "5_frames_numbered.jxl",
    "5_frames_numbered_jxli.jxl",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct G {
    pub r: Rng,
    pub tier: Tier,
    pub effects: bool,
}

fn animated(n: &str) -> bool {
    ANIMATED.iter().any(|a| n.ends_with(&format!("/{a}")) || n.ends_with(a))
}

impl G {
    /// A file of the corpus, cheap ones more often.
    pub fn corpus(&mut self, ok: impl Fn(&str, usize) -> bool) -> FileSpec {
        let cap = if self.tier == Tier::Quick { 450 } else { 1600 };
        let all: Vec<(&str, usize)> = corpus::list()
            .iter()
            .filter(|e| !(e.name.contains("conformance") && e.name.ends_with("_5.jxl")))
            .filter(|e| cost(&e.name) <= cap && ok(&e.name, e.len))
            .map(|e| (e.name.as_str(), 20_000 / (cost(&e.name) + 12)))
            .collect();
        if all.is_empty() {
            return self.genfile(Want::Any);
        }
        let total: usize = all.iter().map(|x| x.1).sum();
        let mut t = self.r.below(total);
        for (n, w) in &all {
            if t < *w {
                return FileSpec::Named(n.to_string());
            }
            t -= w;
        }
        unreachable!()
    }

    pub fn valid(&mut self) -> FileSpec {
        self.corpus(|n, _| !is_broken(n))
    }

    pub fn genfile(&mut self, w: Want) -> FileSpec {
        // A limited number of distinct files, so that references are reused.
        let s = self.r.u64();
        let mut f = genfile::random(s, w);
        if self.effects {
            genfile::add_effects(&mut f, s);
        }
        genfile::add_parts(&mut f, s, self.effects);
        FileSpec::Gen(f)
    }

    /// Half generated, half from the corpus.
    pub fn any(&mut self) -> FileSpec {
        match self.r.below(8) {
            0..=1 => self.genfile(Want::Any),
            2 => self.genfile(Want::Animation),
            3 => self.genfile(Want::Groups),
            _ => self.valid(),
        }
    }

    pub fn anim(&mut self) -> FileSpec {
        if self.r.chance(3, 4) {
            self.genfile(Want::Animation)
        } else {
            self.corpus(|n, _| animated(n))
        }
    }

    /// Files whose decoding has work for several threads.
    pub fn groups(&mut self) -> FileSpec {
        if self.r.chance(1, 2) {
            self.genfile(Want::Groups)
        } else {
            self.corpus(|n, _| !is_broken(n) && cost(n) > 12)
        }
    }

    pub fn hw(&mut self) -> usize {
        *self.r.pick(&[1, 2, 2, 3, 4, 4, 6, 8, 16])
    }

    pub fn sched(&mut self) -> SchedSpec {
        let s = self.r.u64() >> 12;
        match self.r.below(12) {
            0 => SchedSpec::Fixed,
            1..=3 => SchedSpec::Random(s),
            4..=5 => SchedSpec::Sticky(s, *self.r.pick(&[2, 4, 10, 50])),
            6..=8 => SchedSpec::Pct(s, self.r.range(0, 5), *self.r.pick(&[50, 500, 5000])),
            9..=10 => SchedSpec::Starve(s),
            _ => SchedSpec::RoundRobin,
        }
    }

    pub fn threads(&mut self, p: &mut Plan) {
        let t = *self.r.pick(&[2, 2, 3, 3, 4, 5, 8]);
        let s = self.r.u64() >> 12;
        p.runner.kind = match self.r.below(8) {
            0 => RunKind::Rev,
            1 => RunKind::Shuffled(s),
            2..=4 => RunKind::Dealt(t, s),
            _ => RunKind::Pool(t),
        };
        p.sched = self.sched();
        p.hw = self.hw();
        p.entropy = self.r.u64() >> 12;
    }

    pub fn maybe_threads(&mut self, p: &mut Plan) {
        match self.r.below(4) {
            0 => self.threads(p),
            1 => p.runner.kind = RunKind::Seq,
            _ => {}
        }
        p.entropy = self.r.u64() >> 12;
    }

    /// A conforming source, without faults.
    pub fn source(&mut self) -> SrcSpec {
        let mut s = SrcSpec::plain();
        s.seed = self.r.u64() >> 12;
        let short = |r: &mut Rng| match r.below(5) {
            0..=1 => 0,
            2 => 1,
            3 => r.range(2, 16),
            _ => r.logsize(1 << 14),
        };
        match self.r.below(10) {
            0..=2 => return s,
            3..=6 => {
                s.kind = SrcKind::Custom;
                s.short = short(&mut self.r);
                s.short_skip = self.r.chance(1, 3);
            }
            7 => {
                s.kind = SrcKind::CustomDefaultSkip;
                s.short = short(&mut self.r);
            }
            _ => {
                s.kind = SrcKind::BufReader(*self.r.pick(&[1, 2, 3, 7, 16, 64, 127, 512, 4096, 8192]));
                s.short = short(&mut self.r);
                return s;
            }
        }
        s.est = *self.r.pick(&[
            Estimate::Exact,
            Estimate::Exact,
            Estimate::Under,
            Estimate::Over,
            Estimate::Total,
            Estimate::Zero,
        ]);
        s
    }

    pub fn fmt(&mut self) -> Fmt {
        let data = *self.r.pick(&[
            DataSel::U8,
            DataSel::U8,
            DataSel::U16Le,
            DataSel::U16Be,
            DataSel::F16Le,
            DataSel::F16Be,
            DataSel::F32Le,
            DataSel::F32Be,
            DataSel::U16Bits(10),
            DataSel::U8Bits(5),
        ]);
        let color = *self.r.pick(&[
            ColorSel::Default,
            ColorSel::Default,
            ColorSel::WithAlpha,
            ColorSel::WithAlpha,
            ColorSel::Bgr,
            ColorSel::BgrAlpha,
            ColorSel::Ignore,
        ]);
        let extra = match self.r.below(5) {
            0..=1 => ExtraSel::Same,
            2 => ExtraSel::Nothing,
            _ => ExtraSel::Mixed(self.r.below(1000) as u64),
        };
        Fmt { color, data, extra }
    }

    pub fn opts(&mut self) -> DecOpts {
        let mut o = DecOpts::plain();
        o.orient = self.r.chance(4, 5);
        o.spot = self.r.chance(4, 5);
        o.skip_preview = self.r.chance(4, 5);
        o.high_precision = self.r.chance(1, 6);
        o.premultiply = self.r.chance(1, 6);
        o
    }

    pub fn vary(&mut self, p: &mut Plan) {
        if self.r.chance(1, 3) {
            p.opts = self.opts();
        }
        if self.r.chance(1, 3) {
            p.fmt = self.fmt();
        }
        if self.r.chance(1, 3) {
            p.api = Api::Inner;
        }
    }

    /// Other box types.
    fn other(&mut self) -> BoxSpec {
        let ty = *self.r.pick(&[
            *b"Exif", *b"xml ", *b"jumb", *b"brob", *b"free", *b"abcd", *b"jbrd", *b"jxll", *b"jxli", *b"\0\0\0\0",
        ]);
        let n = match self.r.below(6) {
            0 => 0,
            1 => self.r.range(1, 12),
            2 => 100,
            3 => 112,
            _ => self.r.logsize(3000),
        };
        let m = if self.r.chance(1, 5) { LenMode::L64 } else { LenMode::L32 };
        BoxSpec::Other(ty, n, m)
    }

    /// A legal container around a codestream of this length. `ooo`: parts may
    /// come out of order (which only version 1 files may do).
    pub fn wrap(&mut self, len: usize, ooo: bool) -> WrapSpec {
        self.wrap_at(len, ooo, &[])
    }

    /// As `wrap`. `starts`: where frames start; if given, only parts in which no frame
    /// starts trade places, so that the order is one that decoders must accept.
    pub fn wrap_at(&mut self, len: usize, ooo: bool, starts: &[usize]) -> WrapSpec {
        let mut boxes = vec![];
        while self.r.chance(1, 3) {
            boxes.push(self.other());
        }
        let mode = |r: &mut Rng, last: bool| match r.below(6) {
            0 => LenMode::L64,
            1 if last => LenMode::ToEnd,
            _ => LenMode::L32,
        };
        if self.r.chance(1, 3) && starts.is_empty() {
            let trail = self.r.chance(1, 3);
            boxes.push(BoxSpec::Jxlc(mode(&mut self.r, !trail)));
            if trail {
                boxes.push(self.other());
            }
            return WrapSpec {
                version: self.r.below(2) as u32,
                boxes,
            };
        }
        let n = match starts.len() {
            0 => *self.r.pick(&[1, 2, 2, 3, 3, 4, 6, 12]),
            k => self.r.range(2, 2 * k.min(12) + 4),
        };
        let mut cuts: Vec<usize> = (0..n - 1)
            .map(|_| match self.r.below(4) {
                0 | 1 if !starts.is_empty() => {
                    // At the end of a frame, or somewhere after its header.
                    let i = self.r.below(starts.len());
                    let end = starts.get(i + 1).copied().unwrap_or(len);
                    let size = end - starts[i];
                    match self.r.below(3) {
                        0 => end,
                        1 => end - self.r.below(size.min(4) + 1),
                        _ => (starts[i] + self.r.range(1, 40)).min(end),
                    }
                }
                0 => self.r.below(len.min(200) + 1),
                1 => len - self.r.below(len.min(40) + 1),
                _ => self.r.below(len + 1),
            })
            .collect();
        if self.r.chance(1, 4) && n > 1 {
            // An empty part.
            let i = self.r.below(cuts.len());
            let c = cuts[i];
            cuts.push(c);
        }
        cuts.sort();
        cuts.insert(0, 0);
        cuts.push(len);
        let parts: Vec<(u32, usize, usize)> = cuts
            .windows(2)
            .enumerate()
            .map(|(i, w)| (i as u32, w[0], w[1]))
            .collect();
        let np = parts.len();
        let mut order: Vec<usize> = (0..np).collect();
        if ooo && !starts.is_empty() {
            // Runs of parts without the start of a frame.
            let fixed = |i: usize| {
                let (_, s, e) = parts[i];
                i == 0 || starts.iter().any(|o| s <= *o && *o < e)
            };
            let mut a = 0;
            while a < np {
                let mut b = a;
                while b < np && !fixed(b) {
                    b += 1;
                }
                if b > a + 1 {
                    for i in (a + 1..b).rev() {
                        let j = a + self.r.below(i - a + 1);
                        order.swap(i, j);
                    }
                }
                a = b + 1;
            }
        } else if ooo && np > 1 {
            match self.r.below(4) {
                0 => order.reverse(),
                1 => {
                    let a = self.r.below(np - 1);
                    order.swap(a, a + 1);
                }
                2 => {
                    let a = self.r.below(np);
                    let x = order.remove(a);
                    let b = self.r.below(np);
                    order.insert(b, x);
                }
                _ => {
                    for i in (1..np).rev() {
                        let j = self.r.below(i + 1);
                        order.swap(i, j);
                    }
                }
            }
        }
        let sorted = order.windows(2).all(|w| w[0] < w[1]);
        let trail = self.r.chance(1, 3);
        for (k, i) in order.iter().enumerate() {
            let (idx, s, e) = parts[*i];
            let last_box = k + 1 == np && !trail && sorted;
            boxes.push(BoxSpec::Jxlp(idx, s, e, *i + 1 == np, mode(&mut self.r, last_box)));
            if k + 1 < np && self.r.chance(1, 4) {
                boxes.push(self.other());
            }
        }
        if trail {
            boxes.push(self.other());
        }
        WrapSpec {
            version: if sorted { self.r.below(2) as u32 } else { 1 },
            boxes,
        }
    }

    /// Ways to deliver `len` bytes. `marks` are offsets worth cutting near.
    pub fn deliver(&mut self, len: usize, marks: &[usize]) -> Vec<Op> {
        const ALL: u32 = 100_000;
        let mut ops = vec![];
        match self.r.below(12) {
            0 => ops.push(Op::Feed(len, ALL)),
            1..=2 => {
                let k = self.r.range(1, 12);
                let mut cuts: Vec<usize> = (0..k).map(|_| self.r.below(len + 1)).collect();
                cuts.sort();
                let mut at = 0;
                for c in cuts {
                    ops.push(Op::Feed(c - at, ALL));
                    at = c;
                }
            }
            3 => {
                let c = self.r.range(1, 1 + len / 8).max(len / 300 + 1);
                let mut at = 0;
                while at < len {
                    ops.push(Op::Feed(c, ALL));
                    at += c;
                }
            }
            4..=5 => {
                // Byte by byte around one offset.
                let m = if !marks.is_empty() && self.r.chance(2, 3) {
                    *self.r.pick(marks)
                } else if self.r.chance(1, 2) {
                    self.r.below(len.min(300) + 1)
                } else {
                    self.r.below(len + 1)
                };
                let w = *self.r.pick(&[20usize, 60, 200]);
                let s = m.saturating_sub(self.r.below(w + 1));
                ops.push(Op::Feed(s, ALL));
                for _ in 0..w.min(len.saturating_sub(s)) {
                    ops.push(Op::Feed(1, ALL));
                }
            }
            6..=7 => {
                // Cuts at and next to the marks.
                let mut cuts = vec![];
                for m in marks.iter().take(60) {
                    if self.r.chance(2, 3) {
                        let d = self.r.range(0, 4) as isize - 2;
                        cuts.push((*m as isize + d).clamp(0, len as isize) as usize);
                    }
                }
                cuts.sort();
                let mut at = 0;
                for c in cuts {
                    ops.push(Op::Feed(c - at, ALL));
                    at = c;
                }
            }
            8 => {
                ops.push(Op::FeedHint(self.r.range(1, 400) as u32));
            }
            9 => {
                let mut at = 0;
                for _ in 0..self.r.range(2, 25) {
                    let n = self.r.logsize(1 + len / 3);
                    at += n;
                    if self.r.chance(1, 2) {
                        ops.push(Op::Deliver(n));
                    } else {
                        ops.push(Op::Feed(n, self.r.range(1, 4) as u32));
                    }
                    for _ in 0..self.r.below(3) {
                        ops.push(Op::Proc);
                    }
                    if at >= len {
                        break;
                    }
                }
            }
            10 => {
                let mut n = 1;
                let mut at = 0;
                while at < len && ops.len() < 300 {
                    ops.push(Op::Feed(n, ALL));
                    at += n;
                    if self.r.chance(1, 2) {
                        n = n * 2;
                    }
                }
            }
            _ => {
                let k = self.r.range(2, 60);
                for _ in 0..k {
                    ops.push(Op::Feed(len / k + 1, ALL));
                }
            }
        }
        ops
    }

    /// Puts extra operations between deliveries, cutting long ones so that
    /// there are moments to put them at.
    pub fn sprinkle(&mut self, ops: &mut Vec<Op>, n: usize, mut f: impl FnMut(&mut G) -> Op) {
        for _ in 0..n {
            let o = f(self);
            if ops.is_empty() {
                ops.push(o);
                continue;
            }
            let i = self.r.below(ops.len());
            if let Op::Feed(k, steps) = ops[i]
                && k > 1
            {
                let a = self.r.below(k + 1);
                let st = if self.r.chance(1, 3) { self.r.range(1, 5) as u32 } else { steps };
                ops[i] = Op::Feed(a, st);
                ops.insert(i + 1, Op::Feed(k - a, steps));
            }
            ops.insert(i + 1, o);
        }
    }

    pub fn marks(&mut self, p: &Plan) -> Vec<usize> {
        judge::marks(p)
    }

    pub fn mutation(&mut self, len: usize) -> Mutation {
        let pos = |r: &mut Rng| match r.below(4) {
            0 => r.below(len.min(40) + 1),
            1 => r.below(len.min(400) + 1),
            2 => r.logsize(len.max(2)),
            _ => r.below(len + 1),
        };
        let p = pos(&mut self.r);
        match self.r.below(12) {
            0..=5 => Mutation::Flip(p, self.r.below(8) as u8),
            6..=7 => Mutation::Set(p, *self.r.pick(&[0, 1, 0x7f, 0x80, 0xff])),
            8 => {
                let n = self.r.logsize(200);
                Mutation::Delete(p, n)
            }
            9 => {
                let n = self.r.range(1, 12);
                Mutation::Insert(p, (0..n).map(|_| self.r.u64() as u8).collect())
            }
            10 => {
                let q = pos(&mut self.r);
                let n = self.r.logsize(100);
                Mutation::Copy(p, n, q)
            }
            _ => Mutation::Append(self.r.logsize(3000), self.r.u64() as u8),
        }
    }
}

fn len_of(p: &Plan) -> usize {
    corpus::plan_bytes(p).len()
}

fn maybe_wrap(g: &mut G, p: &mut Plan, num: usize, den: usize) {
    if g.r.chance(num, den)
        && let Some(cs) = corpus::codestream(&corpus::bytes(&p.file))
    {
        p.wrap = Some(g.wrap(cs.len(), false));
    }
}

fn is_anim(f: &FileSpec) -> bool {
    match f {
        FileSpec::Named(n) => animated(n),
        FileSpec::Gen(g) => g.anim.is_some(),
        _ => false,
    }
}

/// Formats that do not reduce the precision of the composition model.
fn history(g: &mut G, p: &mut Plan, nvis: usize) {
    // Scan, skip, seek, play and preview in any order.
    let len = len_of(p);
    let marks = g.marks(p);
    let mut ops = vec![];
    match g.r.below(3) {
        0 => ops.push(Op::Scan),
        1 => {
            let d = g.deliver(len, &marks);
            ops.extend(d);
        }
        _ => {
            ops.push(Op::Deliver(len));
            for _ in 0..g.r.below(2 * nvis + 2) {
                ops.push(Op::Proc);
            }
        }
    }
    for _ in 0..g.r.range(1, 7) {
        let k = g.r.below(nvis.max(1));
        let cold = g.r.chance(2, 3);
        ops.push(if cold { Op::SeekCold(k) } else { Op::Seek(k) });
        if g.r.chance(1, 4) {
            ops.push(Op::Skip);
        }
        match g.r.below(5) {
            0 => {}
            1 => {
                let d = g.deliver(len, &marks);
                let n = g.r.below(d.len() + 1);
                ops.extend(d.into_iter().take(n));
            }
            2 => {
                for _ in 0..g.r.range(1, 12) {
                    ops.push(Op::Feed(1 + g.r.logsize(len), 100_000));
                    if g.r.chance(1, 6) {
                        ops.push(Op::Skip);
                    }
                }
            }
            3 => {
                ops.push(Op::Deliver(1 + g.r.below(len)));
                for _ in 0..g.r.range(1, 6) {
                    ops.push(Op::Proc);
                }
            }
            _ => ops.push(Op::FeedHint(g.r.range(1, 60) as u32)),
        }
    }
    p.ops = ops;
}

/// Previews while low-resolution frames arrive.
fn lf_preview(g: &mut G, prop: &str) -> Plan {
    const ALL: u32 = 100_000;
    let (f, at) = genfile::with_lf(&mut g.r);
    let mut p = Plan::plain(prop, FileSpec::Gen(f));
    g.vary(&mut p);
    g.maybe_threads(&mut p);
    if g.r.chance(2, 3) {
        // Whose output has a transfer curve.
        p.fmt.data = *g.r.pick(&[DataSel::U8, DataSel::U16Le, DataSel::U16Be]);
    }
    let len = len_of(&p);
    let (s, e) = *g.r.pick(&at);
    let mut ops = vec![Op::Feed(s, ALL)];
    let mut left = e - s;
    let k = g.r.range(1, 8);
    for i in 0..k {
        let n = if i + 1 == k { left } else { g.r.below(left + 1) };
        ops.push(Op::Feed(n, ALL));
        left -= n;
        for _ in 0..*g.r.pick(&[0usize, 1, 1, 1, 2, 3]) {
            ops.push(if prop != "P04" && g.r.chance(1, 4) {
                Op::FlushBad(*g.r.pick(&[BadBuf::Extra, BadBuf::Missing, BadBuf::FewRows, BadBuf::Narrow]))
            } else {
                Op::Flush
            });
        }
    }
    let rest = len - e.min(len);
    let n = g.r.below(rest + 1);
    ops.extend([Op::Feed(n, ALL), Op::Flush, Op::Feed(rest - n, ALL)]);
    p.ops = ops;
    if prop == "P11" {
        p.pad = *g.r.pick(&[0, 4, 64, 4096]);
        p.fill = *g.r.pick(&[0, 1, 0x55, 0xa5, 0x7f]);
    }
    p
}

pub fn generate(prop: &str, seed: u64, i: u64, tier: Tier) -> Plan {
    let mut g = G {
        r: Rng::new(derive(seed, &[tag(prop), i])),
        tier,
        // The model of P20 does not know about them.
        effects: prop != "P20",
    };
    let g = &mut g;
    let mut p = match prop {
        "P03" | "P04" | "P11" if g.r.chance(1, 9) => lf_preview(g, prop),
        "P01" => {
            let f = g.any();
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 4);
            g.vary(&mut p);
            p.src = g.source();
            g.maybe_threads(&mut p);
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            p
        }
        "P02" => {
            let f = g.groups();
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 10);
            g.vary(&mut p);
            g.threads(&mut p);
            if g.r.chance(1, 3) {
                let m = g.marks(&p);
                p.ops = g.deliver(len_of(&p), &m);
            }
            p
        }
        "P03" => {
            let f = if g.r.chance(1, 4) { g.anim() } else { g.any() };
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 10);
            g.vary(&mut p);
            g.maybe_threads(&mut p);
            if g.r.chance(1, 4) {
                p.src = g.source();
            }
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            let n = g.r.range(1, 10);
            g.sprinkle(&mut p.ops, n, |g| {
                if g.r.chance(1, 6) {
                    Op::FlushBad(*g.r.pick(&[BadBuf::Extra, BadBuf::Missing, BadBuf::FewRows, BadBuf::Narrow]))
                } else {
                    Op::Flush
                }
            });
            p
        }
        "P04" => {
            let f = if g.r.chance(1, 3) { g.groups() } else { g.any() };
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 10);
            g.vary(&mut p);
            if g.r.chance(3, 4) {
                g.threads(&mut p);
            } else {
                g.maybe_threads(&mut p);
            }
            if g.r.chance(1, 3) {
                p.src = g.source();
            }
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            let n = g.r.range(1, 10);
            g.sprinkle(&mut p.ops, n, |_| Op::Flush);
            if g.r.chance(1, 2) {
                // Twice in a row.
                let at: Vec<usize> = (0..p.ops.len()).filter(|i| p.ops[*i] == Op::Flush).collect();
                for _ in 0..g.r.range(1, 4) {
                    let i = *g.r.pick(&at);
                    p.ops.insert(i, Op::Flush);
                }
            }
            p.fill = *g.r.pick(&[0xff, 0x00, 0xa5]);
            p
        }
        "P05" => corrupt(g),
        "P06" => {
            let f = g.any();
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 5);
            if g.r.chance(1, 3) {
                p.api = Api::Inner;
            }
            g.maybe_threads(&mut p);
            let len = len_of(&p);
            let m = g.marks(&p);
            match g.r.below(5) {
                0..=2 => {
                    p.scenario = "prefix".into();
                    let l = match g.r.below(4) {
                        0 if !m.is_empty() => {
                            let x = *g.r.pick(&m) as isize + g.r.range(0, 4) as isize - 2;
                            x.clamp(0, len as isize) as usize
                        }
                        1 => len - g.r.below(len.min(12) + 1),
                        _ => g.r.below(len + 1),
                    };
                    p.muts.push(Mutation::Truncate(l));
                    let m: Vec<usize> = m.into_iter().filter(|x| *x <= l).collect();
                    if g.r.chance(1, 2) {
                        p.src = g.source();
                    }
                    p.ops = g.deliver(l, &m);
                    if g.r.chance(1, 3) {
                        let n = g.r.range(1, 4);
                        g.sprinkle(&mut p.ops, n, |_| Op::Skip);
                    }
                    if g.r.chance(1, 4) {
                        g.sprinkle(&mut p.ops, 2, |_| Op::Flush);
                    }
                }
                3 => {
                    p.scenario = "hint".into();
                    p.ops = vec![Op::FeedHint(100_000)];
                    if g.r.chance(1, 3) {
                        p.ops.insert(0, Op::Skip);
                    }
                }
                _ => {
                    p.scenario = "progress".into();
                    let n = g.r.below(len + 1);
                    p.ops = vec![Op::Feed(n, 100_000)];
                }
            }
            p
        }
        "P07" => {
            let f = g.any();
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 3);
            if g.r.chance(2, 3) {
                p.api = Api::Inner;
                p.retry = g.r.chance(3, 4);
            }
            g.maybe_threads(&mut p);
            p.src = g.source();
            if p.src.kind == SrcKind::Slice {
                p.src.kind = if g.r.chance(1, 2) { SrcKind::Custom } else { SrcKind::BufReader(*g.r.pick(&[1, 16, 100, 8192])) };
            }
            let n = g.r.range(1, 4);
            let hi = *g.r.pick(&[5usize, 20, 20, 60, 60, 300, 3000]);
            for _ in 0..n {
                let k = *g.r.pick(&[IoErr::Interrupted, IoErr::WouldBlock, IoErr::UnexpectedEof, IoErr::Other]);
                p.src.faults.push((g.r.below(hi) as u64, k));
            }
            if g.r.chance(1, 4) {
                p.src.dead_after = Some(g.r.below(hi) as u64);
            }
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            if g.r.chance(1, 4) {
                g.sprinkle(&mut p.ops, 2, |g| if g.r.chance(1, 2) { Op::Flush } else { Op::Skip });
            }
            p
        }
        "P08" => {
            let f = g.anim();
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 3);
            if g.r.chance(1, 2) {
                p.api = Api::Inner;
            }
            if g.r.chance(1, 4) {
                p.fmt = g.fmt();
            }
            g.maybe_threads(&mut p);
            if g.r.chance(1, 3) {
                p.src = g.source();
            }
            let n = judge::visible(&p);
            history(g, &mut p, n);
            if g.r.chance(1, 4) {
                g.sprinkle(&mut p.ops, 2, |_| Op::Flush);
            }
            p
        }
        "P09" => {
            let f = if g.r.chance(3, 4) { g.anim() } else { g.any() };
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 4);
            if g.r.chance(1, 3) {
                p.api = Api::Inner;
            }
            g.maybe_threads(&mut p);
            if g.r.chance(1, 3) {
                p.src = g.source();
            }
            let len = len_of(&p);
            let m = g.marks(&p);
            match g.r.below(4) {
                0 => {
                    p.scenario = "scan".into();
                    p.opts.scan_only = true;
                    p.ops = g.deliver(len, &m);
                }
                1 => {
                    p.scenario = "skip".into();
                    p.ops = g.deliver(len, &m);
                    let n = g.r.range(1, 12);
                    g.sprinkle(&mut p.ops, n, |_| Op::Skip);
                    if g.r.chance(1, 4) {
                        g.sprinkle(&mut p.ops, 2, |_| Op::Flush);
                    }
                }
                _ => {
                    p.scenario = "skip".into();
                    let n = judge::visible(&p);
                    p.ops = vec![Op::Deliver(len)];
                    if g.r.chance(1, 2) {
                        p.ops = vec![Op::Deliver(g.r.below(len + 1))];
                    }
                    for _ in 0..n {
                        match g.r.below(4) {
                            0 => p.ops.extend([Op::Skip, Op::Proc, Op::Proc]),
                            1 => p.ops.extend([Op::Proc, Op::Skip, Op::Proc]),
                            2 => p.ops.extend([Op::Proc, Op::Proc]),
                            _ => p.ops.extend([Op::Proc, Op::Feed(g.r.below(len / n + 1), 1), Op::Skip, Op::Proc]),
                        }
                    }
                }
            }
            p
        }
        "P10" => {
            let f = if g.r.chance(1, 3) { g.anim() } else { g.any() };
            let mut p = Plan::plain(prop, f);
            if let Some(cs) = corpus::codestream(&corpus::bytes(&p.file)) {
                let ooo = g.r.chance(2, 3);
                let starts: Vec<usize> = match &p.file {
                    FileSpec::Gen(f) if ooo && g.r.chance(3, 4) => {
                        f.starts()
                    }
                    _ => vec![],
                };
                p.wrap = Some(g.wrap_at(cs.len(), ooo, &starts));
            }
            if g.r.chance(1, 3) {
                p.api = Api::Inner;
            }
            if g.r.chance(1, 2) {
                p.src = g.source();
            }
            if g.r.chance(1, 4) {
                p.opts.scan_only = true;
            }
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            if g.r.chance(1, 3) {
                let n = g.r.range(1, 8);
                g.sprinkle(&mut p.ops, n, |g| if g.r.chance(3, 4) { Op::Skip } else { Op::Flush });
            }
            p
        }
        "P11" => {
            let f = g.any();
            let mut p = Plan::plain(prop, f);
            p.opts = g.opts();
            p.fmt = g.fmt();
            if g.r.chance(1, 3) {
                p.api = Api::Inner;
            }
            p.pad = *g.r.pick(&[0, 4, 8, 12, 60, 64, 200, 4096]);
            p.fill = *g.r.pick(&[0, 1, 0x55, 0xa5, 0x7f]);
            if g.r.chance(1, 2) {
                g.threads(&mut p);
            }
            if g.r.chance(1, 2) {
                let m = g.marks(&p);
                p.ops = g.deliver(len_of(&p), &m);
                let n = g.r.range(1, 5);
                g.sprinkle(&mut p.ops, n, |g| {
                    if g.r.chance(1, 4) {
                        Op::FlushBad(*g.r.pick(&[BadBuf::Extra, BadBuf::Missing, BadBuf::FewRows, BadBuf::Narrow]))
                    } else {
                        Op::Flush
                    }
                });
            }
            if g.r.chance(1, 6) {
                // The guards must also hold when decoding fails.
                p.scenario = "corrupt".into();
                p.opts.sample_limit = Some(1 << 24);
                let l = len_of(&p);
                for _ in 0..g.r.range(1, 2) {
                    p.muts.push(g.mutation(l));
                }
            }
            p
        }
        "P12" => memory(g),
        "P13" => {
            let f = if g.r.chance(1, 2) { g.groups() } else { g.any() };
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 6);
            g.vary(&mut p);
            g.maybe_threads(&mut p);
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            if g.r.chance(1, 3) {
                g.sprinkle(&mut p.ops, 2, |_| Op::Flush);
            }
            p.ops.push(Op::Feed(1 << 30, 100_000));
            p.ops.push(Op::Restart);
            // Which of the run's allocations fails, as a fraction of their number.
            p.alloc = Some(AllocFault {
                min: *g.r.pick(&[256, 1024, 4096, 4096, 16384, 16384, 65536]),
                at: match g.r.below(4) {
                    0 => g.r.below(1 << 27) as u64,
                    _ => g.r.below(1 << 32) as u64,
                },
                run: *g.r.pick(&[1, 1, 2, 10, 1 << 40]),
                by_site: g.r.chance(2, 3),
            });
            p
        }
        "P14" => {
            let f = g.groups();
            let mut p = Plan::plain(prop, f);
            g.vary(&mut p);
            g.threads(&mut p);
            if g.r.chance(1, 2) {
                let m = g.marks(&p);
                p.ops = g.deliver(len_of(&p), &m);
                if g.r.chance(1, 2) {
                    let n = g.r.range(1, 4);
                    g.sprinkle(&mut p.ops, n, |_| Op::Flush);
                }
            }
            if g.r.chance(1, 5) {
                // Tasks that fail because their section ends early.
                p.scenario = "cut".into();
                let want = match g.r.below(6) {
                    0..=1 => Want::Groups,
                    2..=3 => Want::Wide,
                    _ => Want::Any,
                };
                let mut f = g.genfile(want);
                if let FileSpec::Gen(s) = &mut f {
                    let i = g.r.below(s.frames.len());
                    let at = if g.r.chance(1, 3) { g.r.range(0, 3) as u64 } else { g.r.u64() };
                    s.frames[i].cut = Some((at, if g.r.chance(1, 2) { 1 } else { g.r.range(1, 50) as u32 }));
                }
                let mut q = Plan::plain(prop, f);
                g.vary(&mut q);
                q.runner = p.runner.clone();
                q.hw = p.hw;
                q.sched = p.sched.clone();
                q.scenario = p.scenario;
                p = q;
                let m = g.marks(&p);
                p.ops = g.deliver(len_of(&p), &m);
                if g.r.chance(1, 2) {
                    let n = g.r.range(1, 4);
                    g.sprinkle(&mut p.ops, n, |_| Op::Flush);
                }
            } else if g.r.chance(1, 5) {
                // Tasks that fail because of their data.
                p.scenario = "corrupt".into();
                p.opts.sample_limit = Some(1 << 25);
                let l = len_of(&p);
                for _ in 0..g.r.range(1, 3) {
                    let at = l / 8 + g.r.below(l - l / 8);
                    p.muts.push(Mutation::Flip(at, g.r.below(8) as u8));
                }
            } else {
                p.scenario = "pool".into();
                p.runner.fault = Some(RunFault {
                    at: {
                        let n = *g.r.pick(&[1, 2, 4, 10, 40]);
                        g.r.below(n) as u64
                    },
                    kind: match g.r.below(4) {
                        0 => RunFaultKind::RefuseAll,
                        1 => RunFaultKind::AfterAll,
                        _ => RunFaultKind::After(g.r.below(12)),
                    },
                });
            }
            if p.api == Api::Inner && g.r.chance(1, 2) {
                p.retry = true;
                p.retry_all = true;
            }
            p
        }
        "P15" => {
            let mut all = vec![];
            let n = g.r.range(2, 5);
            let same = g.r.chance(1, 3).then(|| g.any());
            for _ in 0..n {
                let f = match &same {
                    Some(f) => f.clone(),
                    None => {
                        let f = g.any();
                        match &f {
                            FileSpec::Named(n) if cost(n) > 120 => g.genfile(Want::Any),
                            _ => f,
                        }
                    }
                };
                let mut p = Plan::plain(prop, f);
                g.vary(&mut p);
                g.maybe_threads(&mut p);
                let m = g.marks(&p);
                p.ops = g.deliver(len_of(&p), &m);
                if p.ops.len() > 60 {
                    p.ops.truncate(60);
                }
                if g.r.chance(1, 4) {
                    g.sprinkle(&mut p.ops, 2, |_| Op::Flush);
                }
                if g.r.chance(1, 5) {
                    p.ops.push(Op::Abandon);
                } else if g.r.chance(1, 5) {
                    p.scenario = "corrupt".into();
                    p.opts.sample_limit = Some(1 << 25);
                    let l = len_of(&p);
                    p.muts.push(g.mutation(l));
                }
                all.push(p);
            }
            let mut p = all.remove(0);
            p.also = all;
            p.mixing = match g.r.below(3) {
                0 => 0,
                _ => (g.r.u64() >> 12).max(1),
            };
            p.sched = g.sched();
            p.hw = g.hw();
            p
        }
        "P16" => {
            let f = g.any();
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 5);
            g.vary(&mut p);
            g.maybe_threads(&mut p);
            if g.r.chance(1, 4) {
                p.src = g.source();
            }
            let corrupt = g.r.chance(1, 4);
            if corrupt {
                p.scenario = "corrupt".into();
                p.opts.sample_limit = Some(1 << 25);
                let l = len_of(&p);
                for _ in 0..g.r.range(1, 3) {
                    p.muts.push(g.mutation(l));
                }
            }
            let m = if corrupt { vec![] } else { g.marks(&p) };
            let l = len_of(&p);
            p.ops = g.deliver(l, &m);
            if g.r.chance(1, 3) {
                g.sprinkle(&mut p.ops, 3, |g| match g.r.below(4) {
                    0 => Op::Skip,
                    1 => Op::FlushBad(BadBuf::Missing),
                    _ => Op::Flush,
                });
            }
            if is_anim(&p.file) && g.r.chance(1, 3) {
                p.ops.push(Op::Seek(g.r.below(4)));
                p.ops.push(Op::Proc);
            }
            // Dropped anywhere.
            let cut = g.r.below(p.ops.len() + 1);
            p.ops.truncate(cut);
            let n = g.r.below(4);
            for _ in 0..n {
                p.ops.push(Op::Proc);
            }
            if g.r.chance(1, 2) {
                p.scenario = format!("{}-restart", p.scenario);
                p.ops.push(Op::Restart);
            } else {
                p.ops.push(Op::Abandon);
            }
            p
        }
        "P17" => {
            let f = g.anim();
            let mut p = Plan::plain(prop, f);
            if g.r.chance(1, 2) {
                p.opts = g.opts();
            }
            if g.r.chance(1, 3) {
                p.api = Api::Inner;
            }
            p.fmt = g.fmt();
            g.maybe_threads(&mut p);
            let len = len_of(&p);
            let n = judge::visible(&p);
            let part = g.r.chance(1, 2);
            let mut ops = vec![Op::Deliver(if part { g.r.below(len + 1) } else { len }), Op::Proc];
            if g.r.chance(1, 5) {
                ops.insert(0, Op::Scan);
            }
            for _ in 0..n.min(12) + g.r.below(3) {
                if g.r.chance(2, 3) {
                    ops.push(Op::SetFmt(g.fmt()));
                }
                if g.r.chance(1, 5) {
                    ops.push(Op::Flush);
                    if g.r.chance(1, 2) {
                        ops.push(Op::SetFmt(g.fmt()));
                    }
                }
                ops.push(Op::Proc);
                if part && g.r.chance(1, 2) {
                    ops.push(Op::Feed(g.r.below(1 + len / n.max(1)), 1));
                    if g.r.chance(1, 2) {
                        ops.push(Op::Flush);
                    }
                }
                if g.r.chance(1, 6) {
                    ops.push(Op::Skip);
                }
                ops.push(Op::Proc);
                if g.r.chance(1, 8) {
                    ops.push(Op::Seek(g.r.below(n.max(1))));
                }
            }
            p.ops = ops;
            p
        }
        "P20" => {
            let w = if g.r.chance(2, 3) { Want::Animation } else { Want::Any };
            let f = g.genfile(w);
            let mut p = Plan::plain(prop, f);
            maybe_wrap(g, &mut p, 1, 6);
            if g.r.chance(1, 3) {
                p.api = Api::Inner;
            }
            g.maybe_threads(&mut p);
            if g.r.chance(1, 4) {
                p.src = g.source();
            }
            let n = judge::visible(&p);
            match g.r.below(4) {
                0 => {}
                1 => {
                    let m = g.marks(&p);
                    p.ops = g.deliver(len_of(&p), &m);
                    let k = g.r.below(6);
                    g.sprinkle(&mut p.ops, k, |g| if g.r.chance(1, 2) { Op::Skip } else { Op::Flush });
                }
                _ => history(g, &mut p, n),
            }
            p
        }
        other => panic!("no scenarios for {other}"),
    };
    // Half of the files with a preview show it.
    let preview = match &p.file {
        FileSpec::Gen(f) => f.preview.is_some(),
        FileSpec::Named(n) => n.contains("preview"),
        _ => false,
    };
    if preview && !p.opts.scan_only {
        p.opts.skip_preview = p.opts.skip_preview && derive(seed, &[tag(prop), i, 7]) % 2 == 0;
    }
    if p.scenario == "plain" && p.ops.is_empty() {
        p.scenario = "one-shot".into();
    }
    p
}

/// Corrupted, odd and random files.
fn corrupt(g: &mut G) -> Plan {
    let mut p = match g.r.below(10) {
        0..=1 => {
            let f = g.genfile(Want::Odd);
            let mut p = Plan::plain("P05", f);
            p.scenario = "odd".into();
            p
        }
        2..=4 => {
            let mut f = if g.r.chance(1, 2) { g.genfile(Want::Any) } else { g.genfile(Want::Odd) };
            if let FileSpec::Gen(s) = &mut f
                && g.r.chance(1, 10)
            {
                // Down to groups that hold no samples.
                let q = vec![g.r.chance(1, 2); g.r.range(7, 12)];
                let i = g.r.below(s.frames.len());
                s.frames[i].squeeze = q;
            }
            let mut p = Plan::plain("P05", f);
            p.scenario = "mutated-generated".into();
            maybe_wrap(g, &mut p, 1, 4);
            p
        }
        5..=7 => {
            let small = g.r.chance(2, 3);
            let f = g.corpus(|n, l| (!small || l < 20_000) && cost(n) < 200);
            let mut p = Plan::plain("P05", f);
            p.scenario = "mutated-corpus".into();
            maybe_wrap(g, &mut p, 1, 6);
            p
        }
        8 => {
            // Containers with illegal structure.
            let f = g.genfile(Want::Any);
            let mut p = Plan::plain("P05", f);
            p.scenario = "bad-boxes".into();
            let l = len_of(&p);
            let mut w = g.wrap(l, true);
            for _ in 0..g.r.range(1, 3) {
                if w.boxes.is_empty() {
                    break;
                }
                let i = g.r.below(w.boxes.len());
                match g.r.below(6) {
                    0 => {
                        w.boxes.remove(i);
                    }
                    1 => {
                        let b = w.boxes[i].clone();
                        let j = g.r.below(w.boxes.len() + 1);
                        w.boxes.insert(j, b);
                    }
                    2 => {
                        if let BoxSpec::Jxlp(n, _, _, last, _) = &mut w.boxes[i] {
                            match g.r.below(4) {
                                0 => *n = n.wrapping_add(1) & 0x7fff_ffff,
                                1 => *n = 0x7fff_ffff,
                                2 => *n = n.saturating_sub(1),
                                _ => *last = !*last,
                            }
                        }
                    }
                    3 => w.version = *g.r.pick(&[0, 0, 1, 2]),
                    4 => w.boxes.insert(i, BoxSpec::Jxlc(*g.r.pick(&[LenMode::L32, LenMode::L64, LenMode::ToEnd]))),
                    _ => match &mut w.boxes[i] {
                        BoxSpec::Jxlc(m) | BoxSpec::Jxlp(_, _, _, _, m) | BoxSpec::Other(_, _, m) => {
                            *m = LenMode::ToEnd
                        }
                    },
                }
            }
            p.wrap = Some(w);
            p
        }
        _ if g.r.chance(1, 2) => {
            let (d, what) = genfile::claim_of(g.r.u64(), true);
            let mut p = Plan::plain("P05", FileSpec::Hex(d.iter().map(|b| format!("{b:02x}")).collect()));
            p.scenario = format!("huge-{what}");
            p
        }
        _ => {
            let n = g.r.range(1, 120);
            let mut h = String::from(*g.r.pick(&["ff0a", "0000000c4a584c200d0a870a", "ff0a", ""]));
            for _ in 0..n {
                h += &format!("{:02x}", g.r.u64() as u8 & if g.r.chance(1, 2) { 0xff } else { 0x11 });
            }
            let mut p = Plan::plain("P05", FileSpec::Hex(h));
            p.scenario = "noise".into();
            p
        }
    };
    if p.scenario.starts_with("mutated") || (p.scenario == "bad-boxes" && g.r.chance(1, 2)) {
        let l = len_of(&p);
        for _ in 0..*g.r.pick(&[1, 1, 1, 2, 3, 6]) {
            let m = g.mutation(l);
            p.muts.push(m);
        }
        if g.r.chance(1, 8) {
            p.muts.push(Mutation::Truncate(g.r.below(l + 1)));
        }
    }
    p.opts = g.opts();
    p.opts.sample_limit = Some(*g.r.pick(&[1 << 24, 1 << 24, 1 << 25]));
    if p.scenario.starts_with("huge") {
        p.opts.sample_limit = None;
    }
    if g.r.chance(1, 4) {
        p.fmt = g.fmt();
    }
    if g.r.chance(1, 2) {
        p.api = Api::Inner;
    }
    if g.r.chance(1, 8) {
        p.opts.scan_only = true;
    }
    if g.r.chance(1, 2) {
        g.threads(&mut p);
    }
    if g.r.chance(1, 2) {
        p.src = g.source();
    }
    let l = len_of(&p);
    let m = judge::box_marks(&corpus::plan_bytes(&p));
    p.ops = g.deliver(l, &m);
    match g.r.below(4) {
        0..=1 => {}
        2 => {
            let n = g.r.range(1, 4);
            g.sprinkle(&mut p.ops, n, |_| Op::Flush);
        }
        _ => {
            let n = g.r.range(1, 6);
            p.scenario += "-calls";
            g.sprinkle(&mut p.ops, n, |g| match g.r.below(9) {
                0..=1 => Op::Flush,
                2 => Op::FlushBad(*g.r.pick(&[BadBuf::Extra, BadBuf::Missing, BadBuf::FewRows, BadBuf::Narrow])),
                3..=4 => Op::Skip,
                5 => Op::Seek(g.r.below(4)),
                6 => Op::SeekCold(g.r.below(4)),
                7 => Op::SetFmt(g.fmt()),
                _ => Op::Proc,
            });
            if g.r.chance(1, 3) {
                p.ops.push(Op::Seek(g.r.below(3)));
                p.ops.push(Op::Feed(l, 100));
            }
        }
    }
    if g.r.chance(1, 2) && p.api == Api::Inner {
        p.retry = true;
        if g.r.chance(1, 2) {
            p.retry_all = true;
            p.scenario += "-retry";
        }
    }
    p
}

fn memory(g: &mut G) -> Plan {
    match g.r.below(7) {
        0 => {
            let f = g.any();
            let mut p = Plan::plain("P12", f);
            p.scenario = "valid".into();
            maybe_wrap(g, &mut p, 1, 4);
            g.vary(&mut p);
            g.maybe_threads(&mut p);
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            p
        }
        1 => {
            let mut p = corrupt(g);
            p.prop = "P12".into();
            p.scenario = "corrupt".into();
            p.src.est = if g.r.chance(1, 2) { Estimate::Exact } else { Estimate::Under };
            p.opts.sample_limit = Some(*g.r.pick(&[1 << 18, 1 << 20, 1 << 20, 1 << 22]));
            p
        }
        2 => {
            g.effects = false;
            let f = g.genfile(Want::Any);
            let mut p = Plan::plain("P12", f);
            p.scenario = "limit".into();
            let limit = *g.r.pick(&[0, 1, 100, 1000, 10_000, 50_000, 100_000, 1 << 20]);
            p.opts.sample_limit = Some(match &p.file {
                // Just about the size of the image or one of its frames.
                FileSpec::Gen(f) if g.r.chance(2, 3) => {
                    let mut d = vec![(f.w as usize, f.h as usize)];
                    d.extend(f.frames.iter().map(|x| f.fsize(x)));
                    let (w, h) = *g.r.pick(&d);
                    let n = if g.r.chance(1, 3) { w.max(16) * h } else { w * h };
                    let n = n * (3 + f.extra.len());
                    *g.r.pick(&[n + 1, n.saturating_sub(1), n + n / 8, n - n / 8])
                }
                _ => limit,
            });
            let m = g.marks(&p);
            p.ops = g.deliver(len_of(&p), &m);
            p
        }
        3..=4 => {
            let huge = g.r.chance(1, 6);
            let (d, what) = genfile::claim_of(g.r.u64(), huge);
            let mut p = Plan::plain("P12", FileSpec::Hex(d.iter().map(|b| format!("{b:02x}")).collect()));
            p.scenario = format!("claim-{what}");
            p.opts.sample_limit = match what {
                "image" if g.r.chance(1, 4) => None,
                _ => Some(*g.r.pick(&[1 << 14, 1 << 18, 1 << 20, 1 << 20])),
            };
            p.src.est = if g.r.chance(1, 2) { Estimate::Exact } else { Estimate::Under };
            g.maybe_threads(&mut p);
            if g.r.chance(1, 2) {
                p.api = Api::Inner;
            }
            p.ops = g.deliver(d.len(), &[]);
            if g.r.chance(1, 2) {
                g.sprinkle(&mut p.ops, 2, |_| Op::Flush);
            }
            p
        }
        5 => {
            let f = g.corpus(|n, l| !is_broken(n) && l < 12_000 && cost(n) < 150);
            let f = if g.r.chance(1, 2) { f } else { g.genfile(Want::Any) };
            let mut p = Plan::plain("P12", f);
            p.scenario = "drip".into();
            maybe_wrap(g, &mut p, 1, 3);
            let l = len_of(&p);
            let c = l.div_ceil(3000);
            p.ops = vec![Op::Feed(c, 100_000); l.div_ceil(c)];
            if g.r.chance(1, 3) {
                p.scenario = "flushes".into();
                p.ops = vec![];
                for _ in 0..3 {
                    p.ops.push(Op::Feed(1 + g.r.below(l), 100_000));
                    p.ops.extend(vec![Op::Flush; 30]);
                }
            }
            p
        }
        _ => {
            let f = g.anim();
            let mut p = Plan::plain("P12", f);
            p.scenario = "long".into();
            p.api = Api::Inner;
            let n = judge::visible(&p);
            let len = len_of(&p);
            p.ops.push(Op::Scan);
            p.ops.push(Op::Deliver(len));
            let what = g.r.below(4);
            let k = g.r.below(n.max(1));
            for _ in 0..g.r.range(6, 14) {
                match what {
                    0 => p.ops.extend([Op::Seek(k), Op::Proc, Op::Proc]),
                    1 => p.ops.extend([Op::Seek(k), Op::Proc, Op::Skip, Op::Proc]),
                    2 => p.ops.extend([Op::SeekCold(k), Op::Feed(len, 3), Op::Flush]),
                    _ => p.ops.extend([Op::SeekCold(k), Op::Feed(len / 2, 2), Op::Flush, Op::Seek(0), Op::Proc, Op::Proc]),
                }
            }
            p.extra = vec![what as u64];
            p.ops.push(Op::Abandon);
            p
        }
    }
}
