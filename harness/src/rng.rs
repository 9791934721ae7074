//! Deterministic generator (splitmix64 seeding, xoshiro256**), no dependencies.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ 0x51_7c_c1_b7_27_22_0a_95 ^ (data.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for c in data.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x2545F4914F6CDD1D);
        h ^= h >> 29;
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            *v = mix(x);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// A u64 whose bit length is uniform, biased to boundaries of 7-bit groups.
    pub fn spread64(&mut self) -> u64 {
        match self.below(4) {
            0 => {
                let b = self.below(64);
                let base = 1u64 << b;
                base.wrapping_add(self.below(5)).wrapping_sub(2)
            }
            1 => {
                let k = self.range(1, 9) * 7;
                (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2)
            }
            2 => *self.pick(&[0, 1, 2, 127, 128, 255, 256, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MIN as u64, u32::MAX as u64, u32::MAX as u64 + 1, i32::MAX as u64, i32::MIN as i64 as u64, (i32::MIN as i64 - 1) as u64, (i32::MAX as u64) + 1]),
            _ => {
                let b = self.below(64);
                self.u64() >> b
            }
        }
    }
}
