//! Seeded pseudo-random source. Every choice the simulator makes comes from
//! one of these; nothing reads the clock or the operating system's entropy.

#[derive(Clone, Debug)]
pub struct Rng {
    s: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0x517c_c1b7_2722_0a95;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let v = u64::from_le_bytes(c.try_into().unwrap());
        h = (h.rotate_left(5) ^ v).wrapping_mul(0x2545_F491_4F6C_DD1D);
    }
    for &c in it.remainder() {
        h = (h.rotate_left(5) ^ c as u64).wrapping_mul(0x2545_F491_4F6C_DD1D);
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { s: mix(seed) }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.s)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    /// Roughly log-uniform in [0, max]
    pub fn logscale(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        (self.next() & m).min(max)
    }
    /// A 64-bit value biased to the edges that arithmetic bugs live at.
    pub fn edge64(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => i64::MIN as u64,
            4 => i64::MAX as u64,
            5 => 0x8000_0000,
            6 => 0x7fff_ffff,
            7 => 0xffff_ffff_8000_0000,
            8 => 0xffff_ffff,
            9 => self.below(256),
            10 => 1u64 << self.below(64),
            _ => self.next(),
        }
    }
    /// The operands arithmetic treats specially.
    pub fn corner64(&mut self) -> u64 {
        *self.pick(&[
            0,
            1,
            u64::MAX,
            u64::MAX,
            i64::MIN as u64,
            i64::MIN as u64,
            i64::MAX as u64,
            0xffff_ffff_8000_0000,
            0x8000_0000,
            0xffff_ffff,
            0x7fff_ffff,
            63,
            64,
            u64::MAX - 1,
        ])
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}
