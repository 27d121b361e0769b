//! SplitMix64: the only generator used anywhere in the simulator.

#[derive(Clone, Debug)]
pub struct SplitMix(pub u64);

impl SplitMix {
    pub fn new(seed: u64) -> Self {
        SplitMix(seed)
    }
    #[allow(clippy::should_implement_trait)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// True with probability `pm`/1000.
    pub fn permille(&mut self, pm: u32) -> bool {
        pm > 0 && self.below(1000) < pm as u64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// Stateless mix, for deriving one seed from several numbers.
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = SplitMix(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(17));
    r.next() ^ r.next().rotate_left(32)
}
