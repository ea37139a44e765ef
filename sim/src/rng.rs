//! The only randomness in the simulator: a small PRNG, seeded explicitly.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Derives an independent stream from a seed and a list of tags.
pub fn derive(seed: u64, tags: &[u64]) -> u64 {
    tags.iter().fold(mix(seed), |a, t| mix(a ^ mix(*t)))
}

pub fn tag(s: &str) -> u64 {
    hash_bytes(0xcbf2_9ce4_8422_2325, s.as_bytes())
}

/// FNV-1a widened to 8-byte steps; only used to compare byte strings.
pub fn hash_bytes(mut h: u64, data: &[u8]) -> u64 {
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^= (data.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    h ^ (h >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (0 if n == 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi + 1 - lo)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Log-uniform in 1..=max: sizes of every magnitude are equally likely.
    pub fn logsize(&mut self, max: usize) -> usize {
        if max <= 1 {
            return 1;
        }
        let bits = usize::BITS - max.leading_zeros();
        let b = self.below(bits as usize) + 1;
        let v = if b >= 64 { self.u64() as usize } else { self.below(1 << b) };
        v.clamp(1, max)
    }
}
