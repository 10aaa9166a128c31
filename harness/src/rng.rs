//! Small deterministic PRNG (xoshiro256**), seeded through splitmix64.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Self {
        let mut x = seed
            .wrapping_mul(0xD6E8_FEB8_6659_FD93)
            .wrapping_add(hash_bytes(stream.as_bytes()))
            .rotate_left(17)
            ^ idx.wrapping_mul(0xA076_1D64_78BD_642F);
        let s = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Self { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 40) as u8
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 40) as u16
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }

    /// Uniform in `0..n` (`n` > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }

    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// True with probability `n/d`.
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }

    /// A 16-bit value, biased towards boundaries.
    pub fn u16_edge(&mut self) -> u16 {
        match self.below(4) {
            0 => *self.pick(&[
                0, 1, 2, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 5353, 443, 12345,
            ]),
            1 => 1u16 << self.below(16),
            _ => self.u16(),
        }
    }

    /// A 32-bit value, biased towards boundaries.
    pub fn u32_edge(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[
                0,
                1,
                120,
                0xff,
                0x100,
                0xffff,
                0x1_0000,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
            ]),
            1 => 1u32 << self.below(32),
            _ => self.u32(),
        }
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
