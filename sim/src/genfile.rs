//! Generates losslessly coded files (Modular, no colour transform) from an
//! explicit description, together with the picture an independent model says
//! each visible frame must show.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GenSpec {
    pub w: u32,
    pub h: u32,
    pub depth: u32,
    pub gray: bool,
    /// Extra channels: (type, alpha is associated).
    pub extra: Vec<(u32, bool)>,
    /// 1..=8
    pub orient: u32,
    /// Ticks per second (numerator, denominator) and number of loops.
    pub anim: Option<(u32, u32, u32)>,
    pub frames: Vec<GenFrame>,
    #[serde(default)]
    pub xyb: bool,
    /// A preview of this size before the frames of the image.
    #[serde(default)]
    pub preview: Option<(u32, u32, Box<GenFrame>)>,
    /// A colour profile: seed and number of commands that make it up.
    #[serde(default)]
    pub icc: Option<(u64, u32)>,
    /// Frames carry a time code.
    #[serde(default)]
    pub timecodes: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GenBlend {
    /// 0 replace, 1 add, 2 blend, 3 alpha-weighted add, 4 multiply
    pub mode: u32,
    pub alpha: u32,
    pub clamp: bool,
    pub src: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GenPatch {
    pub slot: u32,
    pub x0: u32,
    pub y0: u32,
    pub w: u32,
    pub h: u32,
    pub pos: Vec<(u32, u32)>,
    /// 0 none, 1 replace, 2 add, 3 multiply; one per colour/extra plane set.
    pub modes: Vec<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GenFrame {
    pub seed: u64,
    /// 0 regular, 1 low-resolution frame that the next one builds on, 2
    /// reference only, 3 skip progressive.
    pub kind: u32,
    pub crop: Option<(i32, i32, u32, u32)>,
    pub group_shift: u32,
    /// Squeeze steps (true: horizontal).
    pub squeeze: Vec<bool>,
    pub passes: u32,
    pub rct: Option<u32>,
    pub local_tree: bool,
    /// Number of splits in the tree.
    pub splits: u32,
    pub content: u32,
    pub blend: GenBlend,
    pub ec_blend: Vec<GenBlend>,
    pub duration: u32,
    pub save: u32,
    pub before_ct: bool,
    pub name: String,
    pub permute: bool,
    pub patches: Vec<GenPatch>,
    /// Strengths of the noise to add.
    #[serde(default)]
    pub noise: Option<[u32; 8]>,
    /// Upsampling of the colour and the extra channels (powers of two, no
    /// extra channel below the colour).
    #[serde(default)]
    pub up: u32,
    #[serde(default)]
    pub ec_up: Vec<u32>,
    /// Smoothing: Gaborish, number of passes of the edge-preserving filter.
    #[serde(default)]
    pub filter: (bool, u32),
    /// Leave out this many bytes at the end of one of the sections.
    #[serde(default)]
    pub cut: Option<(u64, u32)>,
    /// Colour coded as 0 samples, 1 transform coefficients, 2 transform
    /// coefficients on top of a low-resolution frame written before this one,
    /// 3 on top of the low-resolution frame of an earlier frame.
    #[serde(default)]
    pub vardct: u32,
    /// What the splines to draw follow from, if any.
    #[serde(default)]
    pub splines: Option<u64>,
}

#[derive(Default)]
struct Bits {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl Bits {
    fn put(&mut self, v: u64, n: u32) {
        let mut v = v;
        let mut n = n;
        while n > 0 {
            let k = n.min(8 - self.n);
            self.acc |= (v & ((1 << k) - 1)) << self.n;
            self.n += k;
            v >>= k;
            n -= k;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn bool(&mut self, b: bool) {
        self.put(b as u64, 1);
    }
    fn align(&mut self) {
        if self.n > 0 {
            self.put(0, 8 - self.n);
        }
    }
    fn finish(mut self) -> Vec<u8> {
        self.align();
        self.out
    }
    /// U32 coder: four (offset, bits) alternatives; the first that fits.
    fn u32(&mut self, v: u32, alt: [(u32, u32); 4]) {
        for (i, (off, bits)) in alt.iter().enumerate() {
            if v >= *off && ((v - off) as u64) < (1u64 << bits) {
                self.put(i as u64, 2);
                self.put((v - off) as u64, *bits);
                return;
            }
        }
        panic!("value {v} does not fit {alt:?}");
    }
    fn enumv(&mut self, v: u32) {
        self.u32(v, [(0, 0), (1, 0), (2, 4), (18, 6)]);
    }
    fn name(&mut self, s: &str) {
        self.u32(s.len() as u32, [(0, 0), (0, 4), (16, 5), (48, 10)]);
        for b in s.bytes() {
            self.put(b as u64, 8);
        }
    }
}

fn pack(v: i64) -> u32 {
    (if v >= 0 { 2 * v } else { -2 * v - 1 }) as u32
}

/// A prefix code over hybrid-integer tokens with split exponent 0:
/// token 0 is 0, token t is 1 << (t-1) plus t-1 raw bits.
#[derive(Clone, Copy)]
struct Code(u32);

impl Code {
    /// Length of a symbol's code in bits, and the number of symbols.
    fn shape(self) -> (&'static [(u32, u32)], u32) {
        // (length, how many symbols), in symbol order.
        match self.0 {
            0 => (&[(5, 32)], 32),
            1 => (&[(4, 8), (5, 16)], 24),
            _ => (&[(3, 4), (4, 4), (5, 8)], 16),
        }
    }
    fn header(self, b: &mut Bits, contexts: u32) {
        b.bool(false); // lz77
        if contexts > 1 {
            b.bool(true);
            b.put(0, 2);
        }
        b.bool(true); // prefix codes
        b.put(0, 4); // split exponent
        let (runs, n) = self.shape();
        let a = n - 1;
        // varint16
        let nb = 31 - a.leading_zeros();
        b.bool(true);
        b.put(nb as u64, 4);
        b.put((a - (1 << nb)) as u64, nb);
        b.put(0, 2);
        // Lengths of the code-length code.
        const ORDER: [u32; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
        let used: Vec<u32> = runs.iter().map(|r| r.0).collect();
        let cl: Vec<u32> = match used.len() {
            1 => vec![0],
            2 => vec![1, 1],
            _ => vec![1, 2, 2],
        };
        let mut space = 32i32;
        let mut seen = 0;
        for s in ORDER {
            if space <= 0 || (used.len() == 1 && seen == 1 && false) {
                break;
            }
            let l = used.iter().position(|u| *u == s).map(|i| cl[i]);
            match l {
                None => b.put(0, 2),
                Some(0) => {
                    // A single symbol: any nonzero length will do.
                    b.put(0b0111, 4);
                    seen += 1;
                }
                Some(l) => {
                    match l {
                        1 => b.put(0b0111, 4),
                        2 => b.put(0b011, 3),
                        _ => unreachable!(),
                    }
                    space -= 32 >> l;
                }
            }
        }
        // The code lengths themselves.
        if used.len() > 1 {
            // Canonical: shorter first, then by symbol.
            for (i, (_, cnt)) in runs.iter().enumerate() {
                for _ in 0..*cnt {
                    match cl.len() {
                        2 => b.put(i as u64, 1),
                        _ => match i {
                            0 => b.put(0, 1),
                            1 => b.put(0b01, 2),
                            _ => b.put(0b11, 2),
                        },
                    }
                }
            }
        }
    }
    fn symbol(self, b: &mut Bits, sym: u32) {
        let (runs, _) = self.shape();
        let mut code = 0u32;
        let mut first = 0;
        let mut prev_len = runs[0].0;
        for (len, cnt) in runs {
            code <<= len - prev_len;
            prev_len = *len;
            if sym < first + cnt {
                let c = code + (sym - first);
                let rev = c.reverse_bits() >> (32 - len);
                b.put(rev as u64, *len);
                return;
            }
            code += cnt;
            first += cnt;
        }
        panic!("symbol {sym} not in the code");
    }
    fn put(self, b: &mut Bits, v: u32) {
        if v == 0 {
            self.symbol(b, 0);
        } else {
            let n = 31 - v.leading_zeros();
            self.symbol(b, n + 1);
            b.put((v - (1 << n)) as u64, n);
        }
    }
}

#[derive(Clone)]
struct Chan {
    w: usize,
    h: usize,
    hs: usize,
    vs: usize,
    d: Vec<i32>,
}

impl Chan {
    fn new(w: usize, h: usize, hs: usize, vs: usize) -> Self {
        Chan {
            w,
            h,
            hs,
            vs,
            d: vec![0; w * h],
        }
    }
    fn at(&self, x: usize, y: usize) -> i32 {
        self.d[y * self.w + x]
    }
    fn sub(&self, x0: usize, y0: usize, w: usize, h: usize) -> Chan {
        let mut c = Chan::new(w, h, self.hs, self.vs);
        for y in 0..h {
            for x in 0..w {
                c.d[y * w + x] = self.at(x0 + x, y0 + y);
            }
        }
        c
    }
}

fn tendency(b: i64, a: i64, n: i64) -> i64 {
    let mut diff = 0;
    if b >= a && a >= n {
        diff = (4 * b - 3 * n - a + 6) / 12;
        if diff - (diff & 1) > 2 * (b - a) {
            diff = 2 * (b - a) + 1;
        }
        if diff + (diff & 1) > 2 * (a - n) {
            diff = 2 * (a - n);
        }
    } else if b <= a && a <= n {
        diff = (4 * b - 3 * n - a - 6) / 12;
        if diff + (diff & 1) < 2 * (b - a) {
            diff = 2 * (b - a) - 1;
        }
        if diff - (diff & 1) < 2 * (a - n) {
            diff = 2 * (a - n);
        }
    }
    diff
}

/// Squeezes one line; returns averages and residuals.
fn squeeze_line(v: &[i32]) -> (Vec<i32>, Vec<i32>) {
    let n = v.len();
    let m = n.div_ceil(2);
    let mut avg = vec![0i32; m];
    for i in 0..n / 2 {
        let (a, b) = (v[2 * i], v[2 * i + 1]);
        avg[i] = a - (a - b) / 2;
    }
    if n % 2 == 1 {
        avg[m - 1] = v[n - 1];
    }
    let mut res = vec![];
    for i in 0..n / 2 {
        let (a, b) = (v[2 * i], v[2 * i + 1]);
        let left = if i > 0 { v[2 * i - 1] } else { avg[0] };
        let next = if i + 1 < m { avg[i + 1] } else { avg[i] };
        res.push(a - b - tendency(left as i64, avg[i] as i64, next as i64) as i32);
    }
    (avg, res)
}

fn squeeze(c: &Chan, horizontal: bool) -> (Chan, Chan) {
    if horizontal {
        let mut a = Chan::new(c.w.div_ceil(2), c.h, c.hs + 1, c.vs);
        let mut r = Chan::new(c.w / 2, c.h, c.hs + 1, c.vs);
        for y in 0..c.h {
            let (av, rv) = squeeze_line(&c.d[y * c.w..(y + 1) * c.w]);
            a.d[y * a.w..(y + 1) * a.w].copy_from_slice(&av);
            r.d[y * r.w..(y + 1) * r.w].copy_from_slice(&rv);
        }
        (a, r)
    } else {
        let mut a = Chan::new(c.w, c.h.div_ceil(2), c.hs, c.vs + 1);
        let mut r = Chan::new(c.w, c.h / 2, c.hs, c.vs + 1);
        for x in 0..c.w {
            let col: Vec<i32> = (0..c.h).map(|y| c.at(x, y)).collect();
            let (av, rv) = squeeze_line(&col);
            for (y, v) in av.iter().enumerate() {
                a.d[y * a.w + x] = *v;
            }
            for (y, v) in rv.iter().enumerate() {
                r.d[y * r.w + x] = *v;
            }
        }
        (a, r)
    }
}

fn rct(ch: &mut [Chan], ty: u32) {
    let perm = (ty / 7) as usize;
    let kind = ty % 7;
    let n = ch[0].d.len();
    for i in 0..n {
        let o = [ch[0].d[i], ch[1].d[i], ch[2].d[i]];
        let (a, b, c) = (
            o[perm % 3],
            o[(perm + 1 + perm / 3) % 3],
            o[(perm + 2 - perm / 3) % 3],
        );
        let r = if kind == 6 {
            let co = a - c;
            let t = c + (co >> 1);
            let cg = b - t;
            [t + (cg >> 1), co, cg]
        } else {
            let (second, third) = (kind >> 1, kind & 1);
            let nb = match second {
                1 => b - a,
                2 => b - ((a + c) >> 1),
                _ => b,
            };
            [a, nb, if third == 1 { c - a } else { c }]
        };
        for k in 0..3 {
            ch[k].d[i] = r[k];
        }
    }
}

enum Node {
    Split(u32, i32, usize, usize),
    Leaf { pred: u32, offset: i32, mul_log: u32 },
}

fn make_tree(r: &mut Rng, splits: u32) -> Vec<Node> {
    // Breadth first; children indices are assigned as nodes are emitted.
    let mut nodes: Vec<Node> = vec![];
    let mut left = splits;
    let mut pending = 1usize;
    // Ranges already split on each property, to keep the tree free of dead ends.
    struct Want {
        lo: [i64; 10],
        hi: [i64; 10],
    }
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(Want {
        lo: [-1000; 10],
        hi: [1000; 10],
    });
    while let Some(q) = queue.pop_front() {
        pending -= 1;
        if left > 0 && (queue.is_empty() || r.chance(2, 3)) {
            left -= 1;
            let p = *r.pick(&[2u32, 3, 2, 3, 6, 7, 9]);
            let v = match p {
                2 | 3 => r.below(200) as i64,
                _ => r.below(500) as i64 - 50,
            };
            let (lo, hi) = (q.lo[p as usize], q.hi[p as usize]);
            if v > lo && v < hi - 1 {
                let idx = nodes.len() + pending + 1;
                nodes.push(Node::Split(p, v as i32, idx, idx + 1));
                pending += 2;
                let (mut a, mut b) = (
                    Want { lo: q.lo, hi: q.hi },
                    Want { lo: q.lo, hi: q.hi },
                );
                a.lo[p as usize] = v + 1;
                b.hi[p as usize] = v;
                queue.push_back(a);
                queue.push_back(b);
                continue;
            }
        }
        nodes.push(Node::Leaf {
            pred: *r.pick(&[0u32, 1, 2, 5, 5, 5]),
            offset: if r.chance(1, 4) { r.below(9) as i32 - 4 } else { 0 },
            mul_log: 0,
        });
    }
    nodes
}

fn write_tree(b: &mut Bits, t: &[Node], code: Code, data_code: Code) {
    code.header(b, 6);
    for n in t {
        match n {
            Node::Split(p, v, _, _) => {
                code.put(b, p + 1);
                code.put(b, pack(*v as i64));
            }
            Node::Leaf {
                pred,
                offset,
                mul_log,
            } => {
                code.put(b, 0);
                code.put(b, *pred);
                code.put(b, pack(*offset as i64));
                code.put(b, *mul_log);
                code.put(b, 0);
            }
        }
    }
    data_code.header(b, t.len().div_ceil(2) as u32);
}

fn write_channel(b: &mut Bits, c: &Chan, t: &[Node], code: Code) {
    for y in 0..c.h {
        for x in 0..c.w {
            let w = if x > 0 {
                c.at(x - 1, y)
            } else if y > 0 {
                c.at(x, y - 1)
            } else {
                0
            } as i64;
            let n = if y > 0 { c.at(x, y - 1) as i64 } else { w };
            let nw = if x > 0 && y > 0 {
                c.at(x - 1, y - 1) as i64
            } else {
                w
            };
            let mut i = 0;
            let (pred, off) = loop {
                match &t[i] {
                    Node::Split(p, v, l, r) => {
                        let val = match p {
                            2 => y as i64,
                            3 => x as i64,
                            6 => n,
                            7 => w,
                            9 => w + n - nw,
                            _ => unreachable!(),
                        };
                        i = if val > *v as i64 { *l } else { *r };
                    }
                    Node::Leaf { pred, offset, .. } => break (*pred, *offset as i64),
                }
            };
            let p = match pred {
                0 => 0,
                1 => w,
                2 => n,
                5 => {
                    let g = w + n - nw;
                    g.clamp(w.min(n), w.max(n))
                }
                _ => unreachable!(),
            };
            code.put(b, pack(c.at(x, y) as i64 - p - off));
        }
    }
}

fn write_group_header(b: &mut Bits, global_tree: bool, transforms: &[Tr]) {
    b.bool(global_tree);
    b.bool(true); // default weighted-predictor parameters
    b.u32(transforms.len() as u32, [(0, 0), (1, 0), (2, 4), (18, 8)]);
    for t in transforms {
        match t {
            Tr::Rct(ty) => {
                b.put(0, 2);
                b.u32(0, [(0, 3), (8, 6), (72, 10), (1096, 13)]);
                b.u32(*ty, [(6, 0), (0, 2), (2, 4), (10, 6)]);
            }
            Tr::Squeeze(steps) => {
                b.put(2, 2);
                b.u32(steps.len() as u32, [(0, 0), (1, 4), (9, 6), (41, 8)]);
                for (h, n) in steps {
                    b.bool(*h);
                    b.bool(true); // in place
                    b.u32(0, [(0, 3), (8, 6), (72, 10), (1096, 13)]);
                    b.u32(*n, [(1, 0), (2, 0), (3, 0), (4, 4)]);
                }
            }
        }
    }
}

enum Tr {
    Rct(u32),
    Squeeze(Vec<(bool, u32)>),
}

impl GenSpec {
    pub fn ncolor(&self) -> usize {
        if self.gray { 1 } else { 3 }
    }
    fn maxv(&self) -> i32 {
        ((1i64 << self.depth) - 1) as i32
    }
    /// Frame size of frame f.
    pub fn fsize(&self, f: &GenFrame) -> (usize, usize) {
        match f.crop {
            Some((_, _, w, h)) => (w as usize, h as usize),
            None if f.kind == 1 => ((self.w as usize).div_ceil(8), (self.h as usize).div_ceil(8)),
            None => (self.w as usize, self.h as usize),
        }
    }
    /// The low-resolution frame that comes before a frame.
    fn lf_frame(&self, f: &GenFrame) -> GenFrame {
        let mut r = Rng::new(f.seed ^ 0x1f_f4a3e);
        let (w, h) = (self.w.div_ceil(8), self.h.div_ceil(8));
        let blend = GenBlend { mode: 0, alpha: 0, clamp: false, src: 0 };
        GenFrame {
            seed: r.u64(),
            kind: 1,
            crop: None,
            group_shift: r.below(4) as u32,
            squeeze: if w.min(h) >= 5 && r.chance(2, 3) { (0..r.range(1, 6)).map(|i| i % 2 == 0).collect() } else { vec![] },
            passes: 1,
            rct: r.chance(1, 4).then(|| r.below(42) as u32),
            local_tree: r.chance(1, 4),
            splits: r.below(3) as u32,
            content: r.below(5) as u32,
            ec_blend: vec![blend.clone(); self.extra.len()],
            blend,
            duration: 0,
            save: 0,
            before_ct: false,
            name: String::new(),
            permute: r.chance(1, 6),
            patches: vec![],
            noise: None,
            up: 0,
            ec_up: vec![],
            filter: (false, 0),
            cut: None,
            vardct: u32::from(r.chance(1, 5)),
            splines: None,
        }
    }
    /// The same as coded, before upsampling.
    pub fn csize(&self, f: &GenFrame) -> (usize, usize) {
        let (w, h) = self.fsize(f);
        (w.div_ceil(1 << f.up), h.div_ceil(1 << f.up))
    }
    fn full(&self, f: &GenFrame) -> bool {
        match f.crop {
            None => true,
            Some((x, y, w, h)) => {
                x <= 0
                    && y <= 0
                    && x as i64 + w as i64 >= self.w as i64
                    && y as i64 + h as i64 >= self.h as i64
            }
        }
    }
    fn needs_blending(&self, f: &GenFrame) -> bool {
        f.kind != 2
            && (f.crop.is_some()
                || std::iter::once(&f.blend)
                    .chain(&f.ec_blend)
                    .any(|b| b.mode != 0))
    }
    pub fn is_visible(&self, i: usize) -> bool {
        let f = &self.frames[i];
        f.kind != 2 && (i + 1 == self.frames.len() || f.duration > 0)
    }
    fn can_be_referenced(&self, i: usize) -> bool {
        let f = &self.frames[i];
        i + 1 != self.frames.len() && (f.duration == 0 || f.kind == 2 || f.save != 0)
    }

    /// The integer samples of a frame's own planes.
    fn content(&self, f: &GenFrame) -> Vec<Chan> {
        let full = self.fsize(f);
        let mut r = Rng::new(f.seed);
        let m = self.maxv();
        let n = self.ncolor() + self.extra.len();
        (0..n)
            .map(|c| {
                let up = if c < self.ncolor() { f.up } else { f.ec_shift(c - self.ncolor()) };
                let (w, h) = (full.0.div_ceil(1 << up), full.1.div_ceil(1 << up));
                let shift = (up - f.up) as usize;
                let mut ch = Chan::new(w, h, shift, shift);
                let kind = if f.content == 9 { r.below(5) as u32 } else { f.content };
                let base = r.below(m as usize + 1) as i32;
                let (dx, dy) = (r.below(7) as i32 - 3, r.below(7) as i32 - 3);
                let bs = 1 << r.range(2, 5);
                let pal: Vec<i32> = (0..8).map(|_| r.below(m as usize + 1) as i32).collect();
                for y in 0..h {
                    for x in 0..w {
                        let v = match kind {
                            0 => base,
                            1 => (base + dx * x as i32 + dy * y as i32).rem_euclid(m + 1),
                            2 => r.below(m as usize + 1) as i32,
                            3 => pal[(x / bs * 5 + y / bs * 3 + c) % 8],
                            _ => {
                                if r.chance(1, 9) {
                                    r.below(m as usize + 1) as i32
                                } else {
                                    base
                                }
                            }
                        };
                        ch.d[y * w + x] = v;
                    }
                }
                // Fully transparent and opaque areas exercise the corner cases
                // of blending.
                if c >= self.ncolor() && self.extra[c - self.ncolor()].0 == 0 {
                    for y in 0..h {
                        for x in 0..w {
                            if (x / 7 + y / 5) % 3 == 0 {
                                ch.d[y * w + x] = 0;
                            } else if (x / 7 + y / 5) % 3 == 1 {
                                ch.d[y * w + x] = m;
                            }
                        }
                    }
                }
                ch
            })
            .collect()
    }

    /// A low-resolution frame is written before the frame.
    fn has_own_lf(&self, i: usize) -> bool {
        match self.frames[i].vardct {
            2 => true,
            3 => self.frames[..i].iter().all(|f| f.vardct < 2),
            _ => false,
        }
    }

    /// Returns where the frame itself starts.
    fn write_frame(&self, i: usize, out: &mut Vec<u8>) -> usize {
        let f = &self.frames[i];
        if self.has_own_lf(i) {
            self.write_one(&self.lf_frame(f), false, false, out);
        }
        let start = out.len();
        self.write_one(f, i + 1 == self.frames.len(), self.can_be_referenced(i), out);
        start
    }

    fn write_one(&self, f: &GenFrame, last: bool, can_be_referenced: bool, out: &mut Vec<u8>) {
        let mut b = Bits::default();
        let refonly = f.kind == 2;
        let lf = f.kind == 1;
        b.bool(false);
        b.put(f.kind as u64, 2);
        b.put(u64::from(f.vardct == 0), 1);
        // flags: U64
        let flags = u64::from(f.noise.is_some())
            + 2 * u64::from(!f.patches.is_empty())
            + 16 * u64::from(f.splines.is_some())
            + 32 * u64::from(f.vardct >= 2)
            + 128 * u64::from(f.vardct == 1 && f.seed % 3 == 0);
        if flags == 0 {
            b.put(0, 2);
        } else if flags < 17 {
            b.put(1, 2);
            b.put(flags - 1, 4);
        } else {
            b.put(2, 2);
            b.put(flags - 17, 8);
        }
        if !self.xyb {
            b.bool(false); // ycbcr
        }
        if f.vardct < 2 {
            b.put(f.up as u64, 2); // upsampling
            for i in 0..self.extra.len() {
                b.put(f.ec_shift(i) as u64, 2);
            }
        }
        if f.vardct == 0 {
            b.put(f.group_shift as u64, 2);
        } else if self.xyb {
            b.put(3, 3);
            b.put(2, 3);
        }
        let mut ds: Vec<(u32, u32)> = vec![];
        let passes = if refonly { 1 } else { f.passes };
        if !refonly {
            b.u32(passes, [(1, 0), (2, 0), (3, 0), (4, 3)]);
            if passes != 1 {
                // Each pass but the last completes one resolution.
                let full: Vec<(u32, u32)> = match passes {
                    2 => vec![(4, 0)],
                    3 => vec![(4, 0), (2, 1)],
                    _ => vec![(8, 0), (4, 1), (2, 2)],
                };
                ds = full;
                b.u32(ds.len() as u32, [(0, 0), (1, 0), (2, 0), (3, 1)]);
                for _ in 0..passes - 1 {
                    b.put(0, 2);
                }
                for (d, _) in &ds {
                    b.u32(*d, [(1, 0), (2, 0), (4, 0), (8, 0)]);
                }
                for (_, p) in &ds {
                    b.u32(*p, [(0, 0), (1, 0), (2, 0), (0, 3)]);
                }
            }
        }
        const DIM: [(u32, u32); 4] = [(0, 8), (256, 11), (2304, 14), (18688, 30)];
        if lf {
            b.put(0, 2); // level
        } else {
            b.bool(f.crop.is_some());
        }
        if let Some((x, y, w, h)) = f.crop {
            if !refonly {
                b.u32(pack(x as i64), DIM);
                b.u32(pack(y as i64), DIM);
            }
            b.u32(w, DIM);
            b.u32(h, DIM);
        }
        let full = self.full(f);
        if !refonly && !lf {
            for bl in std::iter::once(&f.blend).chain(f.ec_blend.iter()) {
                b.u32(bl.mode, [(0, 0), (1, 0), (2, 0), (3, 2)]);
                let uses = !self.extra.is_empty() && (bl.mode == 2 || bl.mode == 3);
                if uses {
                    b.u32(bl.alpha, [(0, 0), (1, 0), (2, 0), (3, 3)]);
                }
                if uses || bl.mode == 4 {
                    b.bool(bl.clamp);
                }
                if !(full && bl.mode == 0) {
                    b.put(bl.src as u64, 2);
                }
            }
            if self.anim.is_some() {
                b.u32(f.duration, [(0, 0), (1, 0), (0, 8), (0, 32)]);
                if self.timecodes {
                    b.put(f.seed & 0xffff_ffff, 32);
                }
            }
            b.bool(last);
        }
        if (!last || refonly) && !lf {
            b.put(f.save as u64, 2);
        }
        if refonly
            || (can_be_referenced && f.blend.mode == 0 && full)
        {
            b.bool(f.before_ct);
        }
        b.name(&f.name);
        // restoration filter
        b.bool(false);
        b.bool(f.filter.0);
        if f.filter.0 {
            b.bool(false);
        }
        b.put(f.filter.1 as u64, 2);
        if f.filter.1 > 0 {
            if f.vardct != 0 {
                b.bool(false);
            }
            b.bool(false);
            b.bool(false);
            if f.vardct == 0 {
                b.put(0x3c00, 16); // sigma 1
            }
        }
        b.put(0, 2);
        b.put(0, 2); // extensions
        let mut sections = self.sections(f, passes as usize, &ds);
        if let Some((k, n)) = f.cut {
            let full: Vec<usize> = (0..sections.len()).filter(|i| !sections[*i].is_empty()).collect();
            let s = &mut sections[full[k as usize % full.len()]];
            s.truncate(s.len().saturating_sub(n as usize));
        }
        // TOC
        let n = sections.len();
        let mut r = Rng::new(f.seed ^ 0x70c);
        let permute = f.permute && n > 1;
        b.bool(permute);
        let mut order: Vec<usize> = (0..n).collect();
        if permute {
            for k in (1..n).rev() {
                order.swap(k, r.below(k + 1));
            }
            let code = Code(0);
            code.header(&mut b, 8);
            code.put(&mut b, n as u32);
            let mut avail: Vec<usize> = (0..n).collect();
            for k in &order {
                let p = avail.iter().position(|a| a == k).unwrap();
                avail.remove(p);
                code.put(&mut b, p as u32);
            }
        }
        b.align();
        // Section k is stored at place order[k].
        let mut stored = vec![0; n];
        for k in 0..n {
            stored[order[k]] = k;
        }
        for k in &stored {
            b.u32(
                sections[*k].len() as u32,
                [(0, 10), (1024, 14), (17408, 22), (4211712, 30)],
            );
        }
        let mut bytes = b.finish();
        for k in &stored {
            bytes.extend_from_slice(&sections[*k]);
        }
        out.extend_from_slice(&bytes);
    }

    fn sections(&self, f: &GenFrame, passes: usize, ds: &[(u32, u32)]) -> Vec<Vec<u8>> {
        let (w, h) = self.csize(f);
        let vardct = f.vardct != 0;
        let dim = if vardct { 256 } else { 128usize << f.group_shift };
        let gx = w.div_ceil(dim);
        let gy = h.div_ceil(dim);
        let lx = w.div_ceil(dim * 8);
        let ly = h.div_ceil(dim * 8);
        let mut r = Rng::new(f.seed ^ 0x7_ee);
        let gtree = make_tree(&mut r, f.splits);
        let code = Code(if self.depth <= 8 && f.squeeze.is_empty() {
            r.below(3) as u32
        } else {
            r.below(2) as u32
        });
        // Channels after the forward transforms.
        let mut ch = self.content(f);
        let mut trs = vec![];
        if vardct {
            ch.drain(..3);
        }
        if let Some(t) = f.rct
            && self.ncolor() == 3
            && !vardct
        {
            rct(&mut ch[..3], t);
            trs.push(Tr::Rct(t));
        }
        if !f.squeeze.is_empty() && !ch.is_empty() {
            let n = ch.len();
            let mut steps = vec![];
            for hz in &f.squeeze {
                let dimok = if *hz { ch[0].w > 1 } else { ch[0].h > 1 };
                if !dimok {
                    continue;
                }
                let mut res = vec![];
                for c in ch.iter_mut().take(n) {
                    let (a, rr) = squeeze(c, *hz);
                    *c = a;
                    res.push(rr);
                }
                let tail = ch.split_off(n);
                ch.extend(res);
                ch.extend(tail);
                steps.push((*hz, n as u32));
            }
            if !steps.is_empty() {
                trs.push(Tr::Squeeze(steps));
            }
        }
        // Which section each channel goes to.
        let small = |c: &Chan| c.w <= dim && c.h <= dim;
        let nglobal = ch.iter().take_while(|c| small(c)).count();
        let bracket = |p: usize| {
            let (mut max, mut min) = (2usize, 3usize);
            for i in 0..=p {
                for (d, l) in ds {
                    if i == *l as usize {
                        min = d.ilog2() as usize;
                    }
                }
                if i + 1 == passes {
                    min = 0;
                }
                if i != p {
                    max = min.saturating_sub(1);
                }
            }
            (min, max)
        };
        let single = gx * gy == 1 && passes == 1;
        let mut secs: Vec<Bits> = vec![];
        // LfGlobal
        let mut b = Bits::default();
        if !f.patches.is_empty() {
            self.write_patches(&mut b, f);
        }
        if let Some(s) = f.splines {
            let (w, h) = self.fsize(f);
            write_splines(&mut b, s, w, h);
        }
        for v in f.noise.iter().flatten() {
            b.put(*v as u64, 10);
        }
        b.bool(true); // default LF quantisation
        if vardct {
            b.put(1, 2); // quantisation
            b.put(f.seed & 2047, 11);
            b.put(0, 2);
            b.bool(true); // block contexts
            b.bool(true); // correlation of colours
        }
        b.bool(true); // a global tree
        write_tree(&mut b, &gtree, Code(0), code);
        let put = |b: &mut Bits, r: &mut Rng, list: &[Chan], trs: &[Tr], always: bool| {
            if list.is_empty() && !always {
                return;
            }
            let local = f.local_tree && r.chance(2, 3);
            write_group_header(b, !local, trs);
            if list.is_empty() {
                return;
            }
            if local {
                let t = make_tree(r, f.splits);
                write_tree(b, &t, Code(0), code);
                for c in list {
                    write_channel(b, c, &t, code);
                }
            } else {
                for c in list {
                    write_channel(b, c, &gtree, code);
                }
            }
        };
        put(&mut b, &mut r, &ch[..nglobal], &trs, !(vardct && self.extra.is_empty()));
        secs.push(b);
        let cut = |c: &Chan, x: usize, y: usize, d: usize| -> Option<Chan> {
            let (dw, dh) = (d >> c.hs, d >> c.vs);
            let (x0, y0) = (x * dw, y * dh);
            if x0 >= c.w || y0 >= c.h {
                return None;
            }
            Some(c.sub(x0, y0, dw.min(c.w - x0), dh.min(c.h - y0)))
        };
        for y in 0..ly {
            for x in 0..lx {
                let mut b = Bits::default();
                let list: Vec<Chan> = ch[nglobal..]
                    .iter()
                    .filter(|c| c.hs.min(c.vs) >= 3)
                    .filter_map(|c| cut(c, x, y, dim * 8))
                    .collect();
                // Blocks of 8x8 samples.
                let bw = (w - x * dim * 8).min(dim * 8).div_ceil(8);
                let bh = (h - y * dim * 8).min(dim * 8).div_ceil(8);
                let chan = |w: usize, h: usize, r: &mut Rng, base: i32, m: usize| {
                    let mut c = Chan::new(w, h, 0, 0);
                    c.d.iter_mut().for_each(|v| *v = base + r.below(m) as i32);
                    c
                };
                if f.vardct == 1 {
                    b.put(0, 2);
                    let v = [(0, 200), (-20, 40), (0, 200)].map(|(o, m)| chan(bw, bh, &mut r, o, m));
                    put(&mut b, &mut r, &v, &[], false);
                }
                put(&mut b, &mut r, &list, &[], false);
                if vardct {
                    let n = (bw * bh) as u64;
                    b.put(n - 1, n.next_power_of_two().ilog2());
                    let (tw, th) = (bw.div_ceil(8), bh.div_ceil(8));
                    let mut info = chan(n as usize, 2, &mut r, 0, 30);
                    info.d[..n as usize].fill(0);
                    let v = [chan(tw, th, &mut r, -8, 16), chan(tw, th, &mut r, -8, 16), info, chan(bw, bh, &mut r, 0, 8)];
                    put(&mut b, &mut r, &v, &[], false);
                }
                secs.push(b);
            }
        }
        let mut b = Bits::default(); // HfGlobal
        if vardct {
            b.bool(true); // default quantisation tables
            b.put(0, ((gx * gy) as u64).next_power_of_two().ilog2());
            for _ in 0..passes {
                b.put(2, 2); // natural order of coefficients
                Code(0).header(&mut b, 495 * 15);
            }
        }
        secs.push(b);
        for p in 0..passes {
            let (min, max) = bracket(p);
            for y in 0..gy {
                for x in 0..gx {
                    let mut b = Bits::default();
                    if vardct {
                        let bw = (w - x * dim).min(dim).div_ceil(8);
                        let bh = (h - y * dim).min(dim).div_ceil(8);
                        for _ in 0..bw * bh * 3 {
                            let n = if r.chance(1, 3) { r.range(1, 4) as u32 } else { 0 };
                            Code(0).put(&mut b, n);
                            for _ in 0..n {
                                Code(0).put(&mut b, r.range(1, 12) as u32);
                            }
                        }
                    }
                    let list: Vec<Chan> = ch[nglobal..]
                        .iter()
                        .filter(|c| {
                            let s = c.hs.min(c.vs);
                            s >= min && s <= max
                        })
                        .filter_map(|c| cut(c, x, y, dim))
                        .collect();
                    put(&mut b, &mut r, &list, &[], false);
                    secs.push(b);
                }
            }
        }
        if single {
            // One section holds everything, without padding in between.
            let mut all = Bits::default();
            for s in secs {
                let n = s.n;
                let acc = s.acc;
                for x in s.out {
                    all.put(x as u64, 8);
                }
                all.put(acc, n);
            }
            return vec![all.finish()];
        }
        secs.into_iter().map(|s| s.finish()).collect()
    }

    fn write_patches(&self, b: &mut Bits, f: &GenFrame) {
        let code = Code(0);
        code.header(b, 10);
        code.put(b, f.patches.len() as u32);
        for p in &f.patches {
            code.put(b, p.slot);
            code.put(b, p.x0);
            code.put(b, p.y0);
            code.put(b, p.w - 1);
            code.put(b, p.h - 1);
            code.put(b, p.pos.len() as u32 - 1);
            let mut prev: Option<(u32, u32)> = None;
            for (x, y) in &p.pos {
                match prev {
                    None => {
                        code.put(b, *x);
                        code.put(b, *y);
                    }
                    Some((px, py)) => {
                        code.put(b, pack(*x as i64 - px as i64));
                        code.put(b, pack(*y as i64 - py as i64));
                    }
                }
                prev = Some((*x, *y));
                for m in &p.modes {
                    code.put(b, *m);
                    if *m == 3 {
                        code.put(b, 0);
                    }
                }
            }
        }
    }

    pub fn write_with_frames(&self) -> (Vec<u8>, Vec<(usize, usize)>) {
        let mut b = Bits::default();
        b.put(0x0aff, 16);
        const SZ: [(u32, u32); 4] = [(1, 9), (1, 13), (1, 18), (1, 30)];
        b.bool(false);
        b.u32(self.h, SZ);
        b.put(0, 3);
        b.u32(self.w, SZ);
        b.bool(false);
        let extra_fields = self.orient != 1 || self.anim.is_some() || self.preview.is_some();
        b.bool(extra_fields);
        if extra_fields {
            b.put(self.orient as u64 - 1, 3);
            b.bool(false);
            b.bool(self.preview.is_some());
            if let Some((w, h, _)) = &self.preview {
                const SZ: [(u32, u32); 4] = [(1, 6), (65, 8), (321, 10), (1345, 12)];
                b.bool(false);
                b.u32(*h, SZ);
                b.put(0, 3);
                b.u32(*w, SZ);
            }
            b.bool(self.anim.is_some());
            if let Some((num, den, loops)) = self.anim {
                b.u32(num, [(100, 0), (1000, 0), (1, 10), (1, 30)]);
                b.u32(den, [(1, 0), (1001, 0), (1, 8), (1, 10)]);
                b.u32(loops, [(0, 0), (0, 3), (0, 16), (0, 32)]);
                b.bool(self.timecodes);
            }
        }
        let depth = |b: &mut Bits| {
            b.bool(false);
            b.u32(self.depth, [(8, 0), (10, 0), (12, 0), (1, 6)]);
        };
        depth(&mut b);
        b.bool(self.depth <= 12); // 16-bit buffers suffice
        b.u32(self.extra.len() as u32, [(0, 0), (1, 0), (2, 4), (1, 12)]);
        for (ty, assoc) in &self.extra {
            b.bool(false);
            b.enumv(*ty);
            depth(&mut b);
            b.u32(0, [(0, 0), (3, 0), (4, 0), (1, 3)]);
            b.name("");
            if *ty == 0 {
                b.bool(*assoc);
            }
        }
        b.bool(self.xyb);
        if self.icc.is_some() {
            b.bool(false);
            b.bool(true);
            b.enumv(self.gray as u32);
        } else if self.gray {
            b.bool(false);
            b.bool(false); // no ICC
            b.enumv(1);
            b.enumv(1);
            b.bool(false);
            b.enumv(13);
            b.enumv(1);
        } else {
            b.bool(true);
        }
        if extra_fields {
            b.bool(true);
        }
        b.put(0, 2);
        b.bool(true); // default transform data
        if let Some((seed, n)) = self.icc {
            write_icc(&mut b, seed, n);
        }
        let mut out = b.finish();
        let mut ends = vec![];
        if let Some(p) = self.preview_spec() {
            p.write_frame(0, &mut out);
        }
        for i in 0..self.frames.len() {
            let start = self.write_frame(i, &mut out);
            ends.push((start, out.len()));
        }
        (out, ends)
    }

    pub fn write(&self) -> Vec<u8> {
        self.write_with_frames().0
    }

    /// Where each frame (hidden ones included) starts and ends.
    pub fn frame_ranges(&self) -> Vec<(usize, usize)> {
        self.write_with_frames().1
    }

    /// The preview, as an image of its own.
    pub fn preview_spec(&self) -> Option<GenSpec> {
        let (w, h, f) = self.preview.as_ref()?;
        let mut p = self.clone();
        (p.w, p.h, p.preview) = (*w, *h, None);
        p.frames = vec![(**f).clone()];
        Some(p)
    }

    /// Where each frame starts, the preview included.
    pub fn starts(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.frame_ranges().iter().map(|r| r.0).collect();
        for (i, f) in self.frames.iter().enumerate() {
            if self.has_own_lf(i) {
                let mut out = vec![];
                self.write_one(&self.lf_frame(f), false, false, &mut out);
                v.push(v[i] - out.len());
            }
        }
        v.sort();
        if let Some(p) = self.preview_spec() {
            let mut out = vec![];
            p.write_frame(0, &mut out);
            v.insert(0, v[0] - out.len());
        }
        v
    }

    /// What each visible frame must show: one plane per colour and extra
    /// channel, before orientation.
    pub fn model(&self) -> Vec<ModelFrame> {
        let np = self.ncolor() + self.extra.len();
        let (w, h) = (self.w as usize, self.h as usize);
        let scale = 1.0 / self.maxv() as f32;
        let mut slots: Vec<Option<(usize, usize, Vec<Vec<f32>>)>> = vec![None; 4];
        let mut out = vec![];
        let nc = self.ncolor();
        let has_alpha = self.extra.iter().any(|e| e.0 == 0);
        for (i, f) in self.frames.iter().enumerate() {
            let (fw, fh) = self.fsize(f);
            let mut px: Vec<Vec<f32>> = self
                .content(f)
                .into_iter()
                .map(|c| c.d.iter().map(|v| *v as f32 * scale).collect())
                .collect();
            for p in &f.patches {
                let (rw, _, rp) = slots[p.slot as usize].as_ref().unwrap();
                for (x, y) in &p.pos {
                    for c in 0..np {
                        let m = if c < nc { p.modes[0] } else { p.modes[1 + c - nc] };
                        for dy in 0..p.h as usize {
                            for dx in 0..p.w as usize {
                                let s = rp[c][(p.y0 as usize + dy) * rw + p.x0 as usize + dx];
                                let d = &mut px[c][(*y as usize + dy) * fw + *x as usize + dx];
                                match m {
                                    1 => *d = s,
                                    2 => *d += s,
                                    3 => *d *= s,
                                    _ => {}
                                }
                            }
                        }
                    }
                }
            }
            let can = self.can_be_referenced(i);
            if f.kind == 2 {
                if can {
                    slots[f.save as usize] = Some((fw, fh, px));
                }
                continue;
            }
            let zero = vec![0f32; w * h];
            let source = |s: u32, c: usize| -> Vec<f32> {
                match &slots[s as usize] {
                    Some((sw, sh, p)) if *sw == w && *sh == h => p[c].clone(),
                    Some(_) => panic!("blending source of another size"),
                    None => zero.clone(),
                }
            };
            let bl = |c: usize| {
                if c < nc { &f.blend } else { &f.ec_blend[c - nc] }
            };
            let full = self.full(f);
            let src_of = |c: usize| {
                let b = bl(c);
                if full && b.mode == 0 { 0 } else { b.src }
            };
            let mut canvas: Vec<Vec<f32>> = (0..np)
                .map(|c| {
                    if self.needs_blending(f) {
                        source(src_of(c), c)
                    } else {
                        zero.clone()
                    }
                })
                .collect();
            let (x0, y0) = f.crop.map_or((0, 0), |c| (c.0 as i64, c.1 as i64));
            let cl = |v: f32, c: bool| if c { v.clamp(0.0, 1.0) } else { v };
            for y in 0..fh {
                let cy = y as i64 + y0;
                if cy < 0 || cy >= h as i64 {
                    continue;
                }
                for x in 0..fw {
                    let cx = x as i64 + x0;
                    if cx < 0 || cx >= w as i64 {
                        continue;
                    }
                    let o = cy as usize * w + cx as usize;
                    let s = y * fw + x;
                    let old: Vec<f32> = (0..np).map(|c| canvas[c][o]).collect();
                    let fg: Vec<f32> = (0..np).map(|c| px[c][s]).collect();
                    // The colour blend also sets its alpha channel, after the
                    // extra channels' own blends.
                    for e in 0..self.extra.len() {
                        let c = nc + e;
                        let b = &f.ec_blend[e];
                        let a = nc + b.alpha as usize;
                        let assoc = self.extra[b.alpha as usize].0 == 0 && self.extra[b.alpha as usize].1;
                        canvas[c][o] = match b.mode {
                            0 => fg[c],
                            1 => old[c] + fg[c],
                            2 => {
                                let fa = cl(fg[a], b.clamp);
                                if c == a {
                                    1.0 - (1.0 - fa) * (1.0 - old[c])
                                } else if assoc {
                                    fg[c] + old[c] * (1.0 - fa)
                                } else {
                                    let na = 1.0 - (1.0 - fa) * (1.0 - old[a]);
                                    let rna = if na > 0.0 { 1.0 / na } else { 0.0 };
                                    (fg[c] * fa + old[c] * old[a] * (1.0 - fa)) * rna
                                }
                            }
                            3 => {
                                if c == a {
                                    old[c]
                                } else {
                                    old[c] + fg[c] * cl(fg[a], b.clamp)
                                }
                            }
                            _ => old[c] * cl(fg[c], b.clamp),
                        };
                    }
                    let b = &f.blend;
                    for c in 0..nc {
                        canvas[c][o] = match b.mode {
                            0 => fg[c],
                            1 => old[c] + fg[c],
                            2 if !has_alpha => fg[c],
                            3 if !has_alpha => old[c] + fg[c],
                            2 => {
                                let a = nc + b.alpha as usize;
                                let assoc = self.extra[b.alpha as usize].1;
                                let fa = cl(fg[a], b.clamp);
                                if assoc {
                                    fg[c] + old[c] * (1.0 - fa)
                                } else {
                                    let na = 1.0 - (1.0 - fa) * (1.0 - old[a]);
                                    let rna = if na > 0.0 { 1.0 / na } else { 0.0 };
                                    (fg[c] * fa + old[c] * old[a] * (1.0 - fa)) * rna
                                }
                            }
                            3 => {
                                let a = nc + b.alpha as usize;
                                old[c] + fg[c] * cl(fg[a], b.clamp)
                            }
                            _ => old[c] * cl(fg[c], b.clamp),
                        };
                    }
                    if b.mode == 2 && has_alpha {
                        let a = nc + b.alpha as usize;
                        let fa = cl(fg[a], b.clamp);
                        canvas[a][o] = 1.0 - (1.0 - fa) * (1.0 - old[a]);
                    }
                }
            }
            if self.is_visible(i) {
                out.push(ModelFrame {
                    name: f.name.clone(),
                    ticks: f.duration,
                    planes: canvas.iter().map(|p| self.oriented(p)).collect(),
                });
            }
            if can {
                slots[f.save as usize] = Some((w, h, canvas));
            }
        }
        out
    }

    pub fn oriented_size(&self) -> (usize, usize) {
        if self.orient >= 5 {
            (self.h as usize, self.w as usize)
        } else {
            (self.w as usize, self.h as usize)
        }
    }

    fn oriented(&self, p: &[f32]) -> Vec<f32> {
        let (w, h) = (self.w as usize, self.h as usize);
        let (ow, oh) = self.oriented_size();
        let mut o = vec![0f32; ow * oh];
        for y in 0..h {
            for x in 0..w {
                let (nx, ny) = match self.orient {
                    1 => (x, y),
                    2 => (w - 1 - x, y),
                    3 => (w - 1 - x, h - 1 - y),
                    4 => (x, h - 1 - y),
                    5 => (y, x),
                    6 => (h - 1 - y, x),
                    7 => (h - 1 - y, w - 1 - x),
                    _ => (y, w - 1 - x),
                };
                o[ny * ow + nx] = p[y * w + x];
            }
        }
        o
    }
}

pub struct ModelFrame {
    pub name: String,
    pub ticks: u32,
    pub planes: Vec<Vec<f32>>,
}

/// What kind of file to draw.
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Any,
    /// Several visible frames.
    Animation,
    /// Several groups (work for threads).
    Groups,
    /// Several groups of low-resolution data.
    Wide,
    /// Well-formed syntax, arbitrary references between frames.
    Odd,
}

pub fn random(seed: u64, want: Want) -> GenSpec {
    let mut r = Rng::new(seed ^ 0x6e4e);
    let anim = want == Want::Animation || r.chance(if want == Want::Groups { 1 } else { 2 }, 3);
    let nframes = if want == Want::Wide {
        r.range(1, 3)
    } else if anim {
        *r.pick(&[2, 2, 3, 3, 4, 5, 6, 8, 11])
    } else {
        *r.pick(&[1, 1, 1, 2, 2, 3, 4])
    };
    let big = want == Want::Groups || r.chance(1, 3);
    let side = |r: &mut Rng, big: bool| -> u32 {
        if big && r.chance(1, 3) {
            // A last group about as small as the borders of the filters.
            (128 * r.range(1, 3) + r.range(1, 40)) as u32
        } else if big {
            *r.pick(&[129u32, 200, 255, 256, 257, 300, 384, 390, 150])
        } else {
            *r.pick(&[1u32, 2, 7, 8, 9, 16, 31, 33, 50, 64, 100, 127, 128, 130])
        }
    };
    let (mut w, mut h) = (side(&mut r, big), side(&mut r, big));
    if nframes > 4 {
        w = w.min(200);
        h = h.min(200);
    }
    // Now and then, several groups of low-resolution data.
    let mut r2 = Rng::new(seed ^ 0x1f91);
    let wide = want == Want::Wide || nframes <= 4 && r2.chance(1, if want == Want::Groups { 8 } else { 40 });
    if wide {
        (w, h) = (*r2.pick(&[1030, 1100, 1300, 2060]), *r2.pick(&[9, 24, 40]));
        if r2.chance(1, 4) {
            (w, h) = (h, w);
        }
    }
    let extra = match r.below(6) {
        0..=1 => vec![],
        2..=3 => vec![(0, r.chance(1, 2))],
        4 => vec![(0, r.chance(1, 2)), (*r.pick(&[1u32, 6]), false)],
        _ => vec![(*r.pick(&[1u32, 6]), false)],
    };
    let mut extra = extra;
    let mut r3 = Rng::new(seed ^ 0x77aa);
    if r3.chance(1, 14) {
        for _ in 0..r3.range(1, 4) {
            extra.push(match r3.below(5) {
                0 => (0, r3.chance(1, 2)),
                _ => (*r3.pick(&[1u32, 3, 6, 16]), false),
            });
        }
    }
    let mut g = GenSpec {
        w,
        h,
        depth: *r.pick(&[8, 8, 8, 10, 12, 4, 1, 16]),
        gray: r.chance(1, 4),
        extra,
        orient: if r.chance(1, 2) { 1 } else { r.range(1, 8) as u32 },
        anim: anim.then(|| {
            (
                *r.pick(&[100u32, 1000, 24, 10]),
                *r.pick(&[1u32, 1, 1001, 3]),
                r.below(4) as u32,
            )
        }),
        frames: vec![],
        preview: None,
        icc: None,
        timecodes: false,
        xyb: false,
    };
    // State of the slots: None, or (is image sized and usable for blending,
    // usable for patches, size).
    let mut slots: [Option<(bool, bool, u32, u32)>; 4] = [None; 4];
    let alpha_at = g.extra.iter().position(|e| e.0 == 0);
    // At least two visible frames in an animation most of the time.
    let plain = r.chance(1, 5);
    for i in 0..nframes {
        let last = i + 1 == nframes;
        let kind = if last {
            0
        } else {
            match r.below(8) {
                0 => 2,
                1 => 3,
                _ => 0,
            }
        };
        let crop = if plain || r.chance(1, 2) {
            None
        } else if kind == 2 {
            Some((0, 0, r.range(1, 40) as u32, r.range(1, 40) as u32))
        } else {
            let cw = if r.chance(1, 5) { w + r.range(0, 20) as u32 } else { r.range(1, w as usize) as u32 };
            let chh = if r.chance(1, 5) { h + r.range(0, 20) as u32 } else { r.range(1, h as usize) as u32 };
            let x = r.below(w as usize + 8) as i32 - if r.chance(1, 3) { cw as i32 / 2 } else { 0 };
            let y = r.below(h as usize + 8) as i32 - if r.chance(1, 3) { chh as i32 / 2 } else { 0 };
            if r.chance(1, 4) {
                Some((-(r.below(5) as i32), -(r.below(5) as i32), w + 10, h + 10))
            } else {
                Some((x, y, cw, chh))
            }
        };
        // A blending source: never one saved before the colour transform.
        let mut source = |r: &mut Rng| -> u32 {
            let ok: Vec<u32> = (0..4u32)
                .filter(|s| slots[*s as usize].is_none_or(|x| x.0))
                .collect();
            if want == Want::Odd {
                r.below(4) as u32
            } else if ok.is_empty() { u32::MAX } else { *r.pick(&ok) }
        };
        let mut mk = |r: &mut Rng, ec: Option<usize>| {
            let mode = if plain { 0 } else { *r.pick(&[0u32, 0, 1, 2, 2, 3, 4]) };
            let alpha = match (ec, alpha_at) {
                (_, Some(a)) => a as u32,
                _ => 0,
            };
            GenBlend {
                mode,
                alpha,
                clamp: r.chance(1, 2),
                src: source(r),
            }
        };
        let blend = mk(&mut r, None);
        let ec_blend: Vec<GenBlend> = (0..g.extra.len()).map(|e| mk(&mut r, Some(e))).collect();
        let (fw, fh) = crop.map_or((w, h), |c| (c.2, c.3));
        let nsq = if r.chance(1, 3) { r.range(1, 7) } else { 0 };
        let mut squeeze: Vec<bool> = vec![];
        // All in one direction: tiles of one pixel.
        let oneway = r.chance(1, 8).then(|| (r.range(6, 7), r.chance(1, 2)));
        if let (true, Some((n, hz))) = (nsq > 0, oneway) {
            squeeze = vec![hz; n];
        }
        for k in squeeze.len()..nsq {
            squeeze.push(if r.chance(3, 4) { k % 2 == 0 } else { r.chance(1, 2) });
        }
        if wide && crop.is_none() && r2.chance(3, 4) {
            squeeze = (0..r2.range(6, 8)).map(|k| k % 2 == 0).collect();
        }
        let passes = if kind != 2 && !squeeze.is_empty() && r.chance(1, 2) {
            r.range(2, 4) as u32
        } else if kind != 2 && r.chance(1, 10) {
            2
        } else {
            1
        };
        let mut patches = vec![];
        if !plain && r.chance(1, 2) {
            for s in 0..4u32 {
                let usable = match slots[s as usize] {
                    Some((_, true, sw, sh)) => Some((sw, sh)),
                    _ if want == Want::Odd && r.chance(1, 4) => Some((60, 60)),
                    _ => None,
                };
                if let Some((sw, sh)) = usable
                    && r.chance(2, 3)
                {
                    for _ in 0..r.range(1, 2) {
                        let pw = r.range(1, sw.min(fw).min(30) as usize) as u32;
                        let ph = r.range(1, sh.min(fh).min(30) as usize) as u32;
                        let pos = (0..r.range(1, 3))
                            .map(|_| {
                                (
                                    r.below((fw - pw + 1) as usize) as u32,
                                    r.below((fh - ph + 1) as usize) as u32,
                                )
                            })
                            .collect();
                        patches.push(GenPatch {
                            slot: s,
                            x0: r.below((sw - pw + 1) as usize) as u32,
                            y0: r.below((sh - ph + 1) as usize) as u32,
                            w: pw,
                            h: ph,
                            pos,
                            modes: (0..1 + g.extra.len()).map(|_| r.below(4) as u32).collect(),
                        });
                    }
                }
            }
        }
        let mut f = GenFrame {
            seed: r.u64(),
            kind,
            crop,
            group_shift: if r.chance(1, 2) || wide { 0 } else { r.range(0, 3) as u32 },
            cut: None,
            vardct: 0,
            squeeze,
            passes,
            rct: r.chance(1, 2).then(|| r.below(42) as u32),
            local_tree: r.chance(1, 3),
            splits: *r.pick(&[0u32, 0, 1, 3, 6]),
            content: *r.pick(&[9u32, 9, 1, 2, 3, 4, 0]),
            blend,
            ec_blend,
            duration: if kind == 2 || g.anim.is_none() {
                0
            } else if last || r.chance(3, 4) {
                *r.pick(&[1u32, 1, 2, 5, 100, 300])
            } else {
                0
            },
            save: r.below(4) as u32,
            before_ct: r.chance(1, 3),
            name: "n".repeat(*r.pick(&[0usize, 0, 1, 5, 20, 60])),
            permute: r.chance(1, 3),
            patches,
            noise: None,
            up: 0,
            ec_up: vec![],
            filter: (false, 0),
            splines: None,
        };
        if last && r.chance(1, 10) {
            f.duration = 0;
        }
        g.frames.push(f);
        // Sources that do not exist mean: replace everything.
        let full = g.full(&g.frames[i]);
        let bad = {
            let f = &g.frames[i];
            g.needs_blending(f)
                && std::iter::once(&f.blend).chain(&f.ec_blend).any(|b| {
                    let implied = full && b.mode == 0;
                    if implied {
                        // The source is not coded and is slot 0.
                        slots[0].is_some_and(|x| !x.0)
                    } else {
                        b.src == u32::MAX
                    }
                })
        };
        {
            let f = &mut g.frames[i];
            if bad && f.kind != 2 && want != Want::Odd {
                f.crop = None;
                f.patches.clear();
                f.blend.mode = 0;
                for b in &mut f.ec_blend {
                    b.mode = 0;
                }
            }
            for b in std::iter::once(&mut f.blend).chain(&mut f.ec_blend) {
                if b.src == u32::MAX {
                    b.src = 0;
                }
            }
        }
        let full = g.full(&g.frames[i]);
        let can = g.can_be_referenced_in(i, last);
        let f = &mut g.frames[i];
        if f.kind == 2 {
            // Saved before the colour transform or, if image sized, usable
            // for blending.
            if f.crop.is_some() {
                f.before_ct = true;
            }
        } else if !(can && f.blend.mode == 0 && full) {
            f.before_ct = false;
        } else if f.ec_blend.iter().any(|b| b.mode != 0) || f.crop.is_some() {
            f.before_ct = false;
        }
        if can {
            let (sw, sh) = if f.kind == 2 { (f.crop.map_or(w, |c| c.2), f.crop.map_or(h, |c| c.3)) } else { (w, h) };
            slots[f.save as usize] = Some((!f.before_ct, f.before_ct, sw, sh));
        }
    }
    g
}

/// Processing that the model leaves out: noise, whose pixels depend on the
/// number of the frame, upsampling and smoothing, which work across the borders
/// of groups, and the XYB colour space.
pub fn add_effects(g: &mut GenSpec, seed: u64) {
    let mut r = Rng::new(seed ^ 0x9015e);
    let (noise, up, filter) = (r.chance(1, 5), r.chance(1, 5), r.chance(1, 5));
    g.xyb = r.chance(1, 6) && !g.gray;
    let extra = g.extra.len();
    for f in &mut g.frames {
        if noise && r.chance(1, 2) {
            f.noise = Some(std::array::from_fn(|_| r.below(1024) as u32));
        }
        if up && r.chance(2, 3) {
            f.up = r.below(4) as u32;
            f.ec_up = vec![f.up; extra];
            if r.chance(1, 3) {
                for e in &mut f.ec_up {
                    *e = r.range(f.up as usize, 3) as u32;
                }
            }
            if f.ec_up.iter().any(|e| *e != f.up) {
                f.squeeze.clear();
            }
            if f.up != 0 || !f.ec_up.is_empty() {
                f.patches.clear();
            }
        }
        if filter && r.chance(2, 3) {
            f.filter = (r.chance(1, 2), r.below(4) as u32);
        }
    }
    let mut r = Rng::new(seed ^ 0x5b11);
    if !g.gray && r.chance(1, 5) {
        for f in &mut g.frames {
            if r.chance(1, 2) {
                f.splines = Some(r.u64());
            }
        }
        for i in 0..g.frames.len() {
            // Few enough points for the size.
            let (w, h) = g.fsize(&g.frames[i]);
            if w * h < 64 {
                g.frames[i].splines = None;
            }
        }
    }
    let mut r = Rng::new(seed ^ 0xdc7);
    if !g.gray && r.chance(1, 6) {
        let no_extra = r.chance(1, 2);
        make_vardct(g, &mut r, no_extra);
    }
}

/// Some curves, mostly within the frame, and never of coinciding points.
fn write_splines(b: &mut Bits, seed: u64, w: usize, h: usize) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let code = Code(0);
    code.header(b, 6);
    let n = r.range(1, 4);
    code.put(b, n as u32 - 1);
    let mut last = (0i64, 0i64);
    for i in 0..n {
        let (x, y) = (r.below(w + 8) as i64, r.below(h + 8) as i64);
        if i == 0 {
            code.put(b, x as u32);
            code.put(b, y as u32);
        } else {
            code.put(b, pack(x - last.0));
            code.put(b, pack(y - last.1));
        }
        last = (x, y);
    }
    code.put(b, pack(r.below(5) as i64 - 2));
    for _ in 0..n {
        let k = r.range(1, 5);
        code.put(b, k as u32);
        let mut d = (0i64, 0i64);
        for _ in 0..k {
            let to = loop {
                let t = (r.below(61) as i64 - 30, r.below(61) as i64 - 30);
                if t != (0, 0) {
                    break t;
                }
            };
            code.put(b, pack(to.0 - d.0));
            code.put(b, pack(to.1 - d.1));
            d = to;
        }
        for c in 0..4 {
            for i in 0..32 {
                let v = match (c, i) {
                    (3, 0) => r.range(2, 16) as i64,
                    (_, 0) => r.below(400) as i64 - 100,
                    (3, _) => 0,
                    _ if r.chance(1, 8) => r.below(40) as i64 - 20,
                    _ => 0,
                };
                code.put(b, pack(v));
            }
        }
    }
}

/// Codes the colour of some frames as transform coefficients.
fn make_vardct(g: &mut GenSpec, r: &mut Rng, no_extra: bool) {
    g.xyb = true;
    if no_extra {
        g.extra.clear();
        for f in &mut g.frames {
            f.ec_blend.clear();
            f.ec_up.clear();
            f.patches.iter_mut().for_each(|p| p.modes.truncate(1));
            if matches!(f.blend.mode, 2 | 3) {
                f.blend.mode = 1;
            }
        }
    }
    for f in &mut g.frames {
        f.vardct = *r.pick(&[0, 1, 2, 2, 3]);
        if f.vardct >= 2 && (f.up != 0 || f.ec_up.iter().any(|u| *u != 0) || f.crop.is_some() || f.kind == 2) {
            f.vardct = 1;
        }
        if f.vardct != 0 {
            f.squeeze.truncate(4);
        }
    }
}

/// A file with low-resolution frames that can be shown before the image, and
/// where these are in the file.
pub fn with_lf(r: &mut Rng) -> (GenSpec, Vec<(usize, usize)>) {
    loop {
        let seed = r.u64();
        let mut g = random(seed, if r.chance(1, 3) { Want::Wide } else { Want::Any });
        if g.gray || g.w.min(g.h) < 16 {
            continue;
        }
        if r.chance(1, 3) {
            add_parts(&mut g, seed, true);
        }
        g.preview = None;
        make_vardct(&mut g, r, true);
        let own: Vec<usize> = (0..g.frames.len()).filter(|i| g.has_own_lf(*i)).collect();
        if own.is_empty() {
            continue;
        }
        let ranges = g.frame_ranges();
        let at = own
            .iter()
            .map(|i| {
                let mut out = vec![];
                g.write_one(&g.lf_frame(&g.frames[*i]), false, false, &mut out);
                (ranges[*i].0 - out.len(), ranges[*i].0)
            })
            .collect();
        return (g, at);
    }
}

/// The coded form of a profile of no particular meaning.
fn write_icc(b: &mut Bits, seed: u64, n: u32) {
    let mut r = Rng::new(seed);
    let varint = |v: &mut Vec<u8>, mut x: usize| {
        while x >= 128 {
            v.push((x & 127) as u8 | 128);
            x >>= 7;
        }
        v.push(x as u8);
    };
    // The header is coded as differences from the usual one.
    let mut data: Vec<u8> = (0..128).map(|i| if i > 83 && r.chance(1, 4) { r.u64() as u8 } else { 0 }).collect();
    let mut commands = vec![0];
    let mut size = 128;
    for _ in 0..n {
        let kind = *r.pick(&[1u8, 1, 2, 3, 10, 16, 21]);
        commands.push(kind);
        let (given, made) = match kind {
            10 => (12, 20),
            16.. => (0, 8),
            _ => {
                let len = *r.pick(&[1usize, 7, 64, 200, 1000]);
                varint(&mut commands, len);
                (len, len)
            }
        };
        let text = r.chance(1, 3);
        data.extend((0..given).map(|_| if text { b'a' + r.below(26) as u8 } else { r.u64() as u8 }));
        size += made;
    }
    if n == 0 {
        commands.clear();
    }
    let mut all = vec![];
    varint(&mut all, size);
    varint(&mut all, commands.len());
    all.append(&mut commands);
    all.append(&mut data);
    // U64, in its longest form.
    b.put(3, 2);
    b.put(all.len() as u64 & 0xfff, 12);
    if all.len() >> 12 != 0 {
        b.put(1, 1);
        b.put(all.len() as u64 >> 12, 8);
    }
    b.put(0, 1);
    let code = Code(r.below(3) as u32);
    code.header(b, 41);
    for v in all {
        code.put(b, v as u32);
    }
}

/// Additions that change none of the frames.
pub fn add_parts(g: &mut GenSpec, seed: u64, effects: bool) {
    let mut r = Rng::new(seed ^ 0x9a575);
    if r.chance(1, if g.xyb { 2 } else { 6 }) {
        g.icc = Some((r.u64(), *r.pick(&[0, 1, 3, 10, 60])));
    }
    g.timecodes = g.anim.is_some() && r.chance(1, 5);
    if r.chance(1, 6) {
        let mut f = random(r.u64(), Want::Any).frames.swap_remove(0);
        f.kind = 0;
        f.crop = None;
        f.patches.clear();
        f.blend = GenBlend { mode: 0, alpha: 0, clamp: false, src: 0 };
        f.ec_blend = vec![f.blend.clone(); g.extra.len()];
        f.save = 0;
        f.before_ct = false;
        let side = |r: &mut Rng| *r.pick(&[1u32, 8, 13, 40, 64, 65, 129, 200, 322]);
        let (w, h) = (side(&mut r), side(&mut r));
        if w.min(h) < 9 {
            f.squeeze.clear();
            f.passes = 1;
        }
        if effects && r.chance(1, 4) {
            f.noise = Some(std::array::from_fn(|_| r.below(1024) as u32));
        }
        g.preview = Some((w, h, Box::new(f)));
    }
}

impl GenFrame {
    fn ec_shift(&self, i: usize) -> u32 {
        self.ec_up.get(i).copied().unwrap_or(self.up)
    }
}

impl GenSpec {
    fn can_be_referenced_in(&self, i: usize, last: bool) -> bool {
        let f = &self.frames[i];
        !last && (f.duration == 0 || f.kind == 2 || f.save != 0)
    }
}

pub fn cached(g: &GenSpec) -> Arc<Vec<u8>> {
    static C: OnceLock<Mutex<HashMap<u64, Arc<Vec<u8>>>>> = OnceLock::new();
    let m = C.get_or_init(Default::default);
    let key = crate::rng::hash_bytes(1, serde_json::to_string(g).unwrap().as_bytes());
    if let Some(d) = m.lock().unwrap().get(&key) {
        return d.clone();
    }
    let d = Arc::new(g.write());
    let mut m = m.lock().unwrap();
    if m.len() > 64 {
        m.clear();
    }
    m.insert(key, d.clone());
    d
}

/// A short file that promises far more than it holds, and what it promises.
pub fn claim(seed: u64) -> (Vec<u8>, &'static str) {
    claim_of(seed, false)
}

fn huge_size(r: &mut Rng) -> (u32, u32) {
    if r.chance(1, 4) {
        let d = [1 << 20, 1 << 22, 1 << 26, 1 << 29, (1 << 30) - 1, 40, 65536];
        (*r.pick(&d), *r.pick(&d))
    } else {
        let d = [30000, 46341, 65535, 65536, 65537, 92681, 92682, 131072];
        (*r.pick(&d), *r.pick(&d))
    }
}

/// `huge`: of an image or a frame with about or more than 2^32 pixels, which is legal.
pub fn claim_of(seed: u64, huge: bool) -> (Vec<u8>, &'static str) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let big = |r: &mut Rng, lo: u32, hi: u32| {
        let n = r.range(lo as usize, hi as usize) as u32;
        (1u32 << n) - 1 + r.below(2) as u32
    };
    let kind = if huge {
        *r.pick(&["frame", "patches", "palette", "squeeze", "tree", "splines", "splines"])
    } else {
        *r.pick(&["icc", "image", "frame", "toc", "extra", "extension", "patches", "palette", "squeeze", "tree", "splines", "box"])
    };
    let noise = |r: &mut Rng, out: &mut Vec<u8>| {
        let n = *r.pick(&[0, 1, 10, 100, 1000, 5000]);
        let m = *r.pick(&[0xffu8, 0x11, 0x01, 0]);
        for _ in 0..n {
            out.push(r.u64() as u8 & m);
        }
    };
    if kind == "box" {
        // A box that claims to be long, first or after others.
        let mut out = vec![];
        out.extend_from_slice(b"\0\0\0\x0cJXL \r\n\x87\n\0\0\0\x14ftypjxl \0\0\0\0jxl ");
        let len: u64 = 1 << r.range(20, 62);
        let ty: [u8; 4] = *r.pick(&[*b"jxlp", *b"jxlp", *b"jxlc", *b"Exif", *b"brob", *b"xml ", *b"jxli", *b"jxll", *b"ftyp"]);
        out.extend_from_slice(&1u32.to_be_bytes());
        out.extend_from_slice(&ty);
        out.extend_from_slice(&len.to_be_bytes());
        if &ty == b"jxlp" {
            let n = r.below(4) as u32 | if r.chance(1, 2) { 1 << 31 } else { 0 };
            out.extend_from_slice(&n.to_be_bytes());
        }
        noise(r, &mut out);
        return (out, kind);
    }
    let mut b = Bits::default();
    b.put(0x0aff, 16);
    const SZ: [(u32, u32); 4] = [(1, 9), (1, 13), (1, 18), (1, 30)];
    let (w, h) = match kind {
        "image" => match r.below(3) {
            0 => (big(r, 10, 30), r.range(1, 50) as u32),
            1 => (r.range(1, 50) as u32, big(r, 10, 30)),
            _ => (big(r, 8, 20), big(r, 8, 20)),
        },
        _ if huge && r.chance(1, 3) => huge_size(r),
        _ => (r.range(1, 40) as u32, r.range(1, 40) as u32),
    };
    b.bool(false);
    b.u32(h, SZ);
    b.put(0, 3);
    b.u32(w, SZ);
    b.bool(false);
    b.bool(false); // no extra fields
    b.bool(false);
    b.u32(8, [(8, 0), (10, 0), (12, 0), (1, 6)]);
    b.bool(true);
    let ecs = match kind {
        "extra" => big(r, 4, 12).min(4096),
        _ => 0,
    };
    b.u32(ecs, [(0, 0), (1, 0), (2, 4), (1, 12)]);
    let there = if ecs > 0 && r.chance(1, 2) { r.below(ecs as usize) as u32 } else { ecs };
    for _ in 0..there {
        b.bool(false);
        b.enumv(0);
        b.bool(false);
        b.u32(8, [(8, 0), (10, 0), (12, 0), (1, 6)]);
        b.u32(0, [(0, 0), (3, 0), (4, 0), (1, 3)]);
        if r.chance(1, 9) {
            b.name(&"x".repeat(r.range(1, 1000)));
        } else {
            b.name("");
        }
        b.bool(false);
    }
    if there < ecs {
        let mut out = b.finish();
        noise(r, &mut out);
        return (out, kind);
    }
    b.bool(false); // not XYB
    let u64v = |b: &mut Bits, v: u64| {
        // The longest form.
        b.put(3, 2);
        b.put(v & 0xfff, 12);
        let mut shift = 12;
        let mut v = v >> 12;
        while v > 0 {
            b.put(1, 1);
            if shift == 60 {
                b.put(v & 15, 4);
                return;
            }
            b.put(v & 0xff, 8);
            v >>= 8;
            shift += 8;
        }
        b.put(0, 1);
    };
    if kind == "icc" {
        b.bool(false);
        b.bool(true); // ICC
        b.enumv(0);
    } else {
        b.bool(true);
    }
    b.put(0, 2);
    b.bool(true);
    if kind == "icc" {
        let n = 1u64 << r.range(10, 40);
        u64v(&mut b, n);
        let code = Code(r.below(3) as u32);
        code.header(&mut b, 41);
        let there = *r.pick(&[0, 10, 200, 3000]);
        // The length of the profile and of the commands come first.
        for i in 0..there {
            let v = if i < 9 && r.chance(1, 2) { 0x80 + r.below(128) } else { r.below(256) };
            code.put(&mut b, v as u32);
        }
        let out = b.finish();
        return (out, kind);
    }
    b.align();
    // One frame.
    b.bool(false);
    b.put(0, 2);
    b.put(1, 1); // modular
    match kind {
        "patches" => {
            b.put(1, 2);
            b.put(1, 4);
        }
        "splines" => {
            b.put(1, 2);
            b.put(15, 4);
        }
        _ => b.put(0, 2),
    }
    b.bool(false);
    b.put(0, 2);
    for _ in 0..ecs {
        b.put(0, 2);
    }
    b.put(if huge { 3 } else { r.below(4) as u64 }, 2);
    b.u32(1, [(1, 0), (2, 0), (3, 0), (4, 3)]);
    const DIM: [(u32, u32); 4] = [(0, 8), (256, 11), (2304, 14), (18688, 30)];
    let crop = kind == "frame" || (huge && w.max(h) <= 40);
    b.bool(crop);
    let (fw, fh) = if crop && huge {
        huge_size(r)
    } else if crop {
        match r.below(3) {
            0 => (big(r, 8, 29), r.range(1, 50) as u32),
            1 => (r.range(1, 50) as u32, big(r, 8, 29)),
            _ => (big(r, 5, 16), big(r, 5, 16)),
        }
    } else {
        (w, h)
    };
    if crop {
        b.u32(0, DIM);
        b.u32(0, DIM);
        b.u32(fw, DIM);
        b.u32(fh, DIM);
    }
    for _ in 0..1 + ecs {
        b.put(0, 2); // replace
        if crop && (fw < w || fh < h) {
            b.put(0, 2);
        }
    }
    b.bool(true); // last
    b.name("");
    b.bool(false);
    b.bool(false);
    b.put(0, 2);
    b.put(0, 2);
    if kind == "extension" {
        u64v(&mut b, 1 << r.below(63));
        u64v(&mut b, 1 << r.below(63));
    } else {
        b.put(0, 2);
    }
    let sec = |r: &mut Rng| match kind {
        "toc" => 1u32 << r.range(10, 30),
        _ => r.range(5000, 20000) as u32,
    };
    let dim = 128usize;
    let n = fw.div_ceil(dim as u32) as u64 * fh.div_ceil(dim as u32) as u64;
    let n = if n == 1 { 1 } else { (n + 4).min(3000) };
    let n = if huge {
        let groups = |d: u32| u64::from(fw.div_ceil(d)) * u64::from(fh.div_ceil(d));
        (2 + groups(1024) + groups(8192)).min(30000)
    } else {
        n
    };
    if kind == "toc" && r.chance(1, 4) {
        b.bool(true);
        Code(0).header(&mut b, 8);
        Code(0).put(&mut b, 1 << r.below(30));
    } else {
        b.bool(false);
    }
    b.align();
    for _ in 0..n {
        let s = sec(r);
        b.u32(s, [(0, 10), (1024, 14), (17408, 22), (4211712, 30)]);
    }
    b.align();
    let mut s = Bits::default();
    match kind {
        "patches" => {
            Code(0).header(&mut s, 10);
            Code(0).put(&mut s, 1 << r.below(30));
            for _ in 0..r.below(5) {
                for _ in 0..8 {
                    let v = if r.chance(1, 4) { 1 << r.below(30) } else { r.below(4) as u32 };
                    Code(0).put(&mut s, v);
                }
            }
        }
        "splines" => {
            Code(0).header(&mut s, 6);
            Code(0).put(&mut s, 1 << r.below(30));
            for _ in 0..40 {
                let v = if r.chance(1, 4) { 1 << r.below(30) } else { r.below(4) as u32 };
                Code(0).put(&mut s, v);
            }
        }
        _ => {}
    }
    s.bool(true); // default LF quantisation factors
    if kind == "tree" {
        // A global tree with many nodes.
        s.bool(true);
        let depth = *r.pick(&[4, 10, 1000, 30000]);
        Code(2).header(&mut s, 6);
        for _ in 0..depth {
            Code(2).put(&mut s, 3);
            Code(2).put(&mut s, 0);
        }
    } else {
        s.bool(false);
        s.bool(false); // local tree
        s.bool(true);
        match kind {
            "palette" => {
                s.u32(r.range(1, 60) as u32, [(0, 0), (1, 0), (2, 4), (18, 8)]);
                for _ in 0..r.range(1, 4) {
                    s.put(1, 2);
                    s.u32(0, [(0, 3), (8, 6), (72, 10), (1096, 13)]);
                    s.u32(*r.pick(&[1, 3, 4, 3, 8000]), [(1, 0), (3, 0), (4, 0), (1, 13)]);
                    s.u32(r.range(0, 70000) as u32, [(0, 8), (256, 10), (1280, 12), (5376, 16)]);
                    s.u32(r.range(0, 60000) as u32, [(0, 0), (1, 8), (257, 10), (1281, 16)]);
                    s.put(r.below(14) as u64, 4);
                }
            }
            "squeeze" => {
                let n = r.range(1, 270) as u32;
                s.u32(n, [(0, 0), (1, 0), (2, 4), (18, 8)]);
                for _ in 0..n {
                    s.put(2, 2);
                    let k = r.range(0, 290) as u32;
                    s.u32(k, [(0, 0), (1, 4), (9, 6), (41, 8)]);
                    for _ in 0..k {
                        s.bool(r.chance(1, 2));
                        s.bool(r.chance(1, 2));
                        s.u32(0, [(0, 3), (8, 6), (72, 10), (1096, 13)]);
                        s.u32(*r.pick(&[1, 2, 3, 3, 12]), [(1, 0), (2, 0), (3, 0), (4, 4)]);
                    }
                }
            }
            _ => {}
        }
    }
    let mut out = b.finish();
    out.extend(s.finish());
    noise(r, &mut out);
    (out, kind)
}
