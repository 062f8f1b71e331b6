//! Deterministic PRNG (splitmix64): every random choice of every check derives from VERIF_SEED.
#[derive(Clone, Debug)]
pub struct Prng(pub u64);

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(mix(seed ^ 0x5851_f42d_4c95_7f2d))
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    /// Inclusive range.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            a
        } else if b - a == u64::MAX {
            self.u64()
        } else {
            a + self.below(b - a + 1)
        }
    }
    pub fn usize(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u64, b as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    /// Value whose bit width is uniform in 0..=bits: favours small numbers and boundaries.
    pub fn skewed(&mut self, bits: u32) -> u64 {
        let b = self.below(bits as u64 + 1) as u32;
        if b == 0 {
            return 0;
        }
        let m = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
        match self.below(4) {
            0 => m,
            1 => 1u64 << (b - 1),
            _ => self.u64() & m,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Prng {
        Prng::new(self.u64())
    }
}

/// FNV-ish 64-bit running hash used for trace digests.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Digest(pub u64);
impl Default for Digest {
    fn default() -> Self {
        Digest(0xcbf2_9ce4_8422_2325)
    }
}
impl Digest {
    pub fn u(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v).wrapping_add(0x9e37_79b9_7f4a_7c15);
    }
    pub fn b(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(w));
        }
    }
    pub fn s(&mut self, s: &str) {
        self.b(s.as_bytes())
    }
}
