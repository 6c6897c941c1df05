//! Deterministic PRNG (splitmix64), so that every case is replayable from its seed.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn fork(&mut self) -> Self {
        Self::new(self.next())
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() as u128 % ((hi as i128 - lo as i128 + 1) as u128)) as i64
    }
    /// True with probability `p` percent.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    /// Usually one of a few values, sometimes anything up to the limits of narrower integers.
    pub fn wide(&mut self, usual: &[u16]) -> u16 {
        match self.below(10) {
            0 => *self.pick(&[127, 128, 255, 256, 257, 512, 32_767, 32_768, 65_534]),
            1 => self.next() as u16,
            _ => *self.pick(usual),
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    /// A random subset, each element with probability `p` percent.
    pub fn subset<T: Clone>(&mut self, xs: &[T], p: u64) -> Vec<T> {
        xs.iter().filter(|_| self.pct(p)).cloned().collect()
    }
}

pub fn hash_of(x: impl std::hash::Hash) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
