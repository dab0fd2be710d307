//! Small deterministic PRNG (splitmix64 seeded xoshiro256**), so that a case is replayed from its seed.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

/// Faster (8 bytes at a time) digest for buffers.
pub fn digest(bytes: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64 ^ bytes.len() as u64;
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        h = (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *v = mix(x);
        }
        Self { s }
    }

    pub fn derive(seed: u64, tag: &str, a: u64, b: u64) -> Self {
        Self::new(mix(seed ^ fnv(tag.as_bytes())) ^ mix(a.wrapping_mul(31).wrapping_add(7)) ^ mix(b ^ 0xabcdef))
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi - lo >= 64 {
            if let Some(n) = crate::dict::sometimes(self, 24, lo, hi) {
                return n;
            }
        }
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }

    /// Roughly log-uniform in lo..=hi.
    pub fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        if let Some(n) = crate::dict::sometimes(self, 16, lo, hi) {
            return n;
        }
        let span = hi - lo + 1;
        let bits = 64 - span.leading_zeros() as u64;
        let b = self.range(0, bits);
        let v = if b == 0 { 0 } else { self.next() >> (64 - b) };
        lo + v.min(hi - lo)
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}
