//! splitmix64; every random choice of the harness derives from VERIF_SEED through this.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    /// A length around a power of two (or three times one), as buffers and blocks have it.
    pub fn outsized(&mut self, max: usize) -> usize {
        let mut n = 512usize << self.below(14);
        if self.chance(1, 4) {
            n *= 3;
        }
        if self.chance(1, 4) {
            n += self.below(n);
        }
        let n = n.min(max);
        (n + self.below(19)).saturating_sub(9)
    }

    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ 0x1234_5678_9abc_def1);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn bytes_upto(&mut self, max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        self.bytes(n)
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next())
    }
    /// A 64-bit value with a bias to the extremes.
    pub fn value(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::max_value(),
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => !(1u64 << self.below(64)),
            5 => self.next() & 0xff,
            _ => self.next(),
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}
