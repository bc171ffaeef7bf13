//! Deterministic pseudo-random numbers (splitmix64).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// Another sequence, which does not depend on how much of it is used
    pub fn fork(&mut self) -> Self {
        Rng::new(self.next())
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.next()) * n as u128) >> 64) as usize
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    /// A number like `n`, but another one
    pub fn other(&mut self, n: u32) -> u32 {
        loop {
            let x = match self.below(8) {
                0 => self.below(7) as u32,
                1 | 2 => n ^ (1 << self.below(32)),
                3 => n.wrapping_add((1 + self.below(1000) as u32) << 8),
                4 => n.wrapping_add((1 + self.below(1000) as u32) << 16),
                5 => *self.pick(&[4, 7, 8, 255, 256, 257, 65535, 65536, 1 << 31, u32::MAX - 2, u32::MAX - 1, u32::MAX]),
                6 => n.wrapping_neg(),
                _ => self.next() as u32 >> self.below(32),
            };
            if x != n {
                return x;
            }
        }
    }
}
