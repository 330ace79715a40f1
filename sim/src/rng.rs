//! The only source of randomness: a splitmix64 stream per run.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Seed of run `i` of property `prop` under the batch seed.
pub fn run_seed(batch: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(batch ^ 0xA5A5_5A5A);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(i))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// An integer of `bits` bits at most, biased to the edges of byte widths.
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(6) {
            0 => self.below(4) & max,
            1 => max - self.below(3).min(max),
            2 => {
                let b = self.below(bits as u64) as u32;
                let p = 1u64 << b;
                (match self.below(3) {
                    0 => p,
                    1 => p - 1,
                    _ => p.wrapping_add(1),
                }) & max
            }
            3 => {
                let b = 1 + self.below(bits as u64) as u32;
                if b == 64 {
                    self.u64()
                } else {
                    self.u64() & ((1u64 << b) - 1)
                }
            }
            _ => self.u64() & max,
        }
    }
}
