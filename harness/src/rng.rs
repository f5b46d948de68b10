//! xoshiro256** seeded through splitmix64; one independent stream per (seed, property, case).
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        let mut s = seed ^ 0x5bd1_e995_1234_5678;
        for b in stream.bytes() {
            s = (s ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        let mut t = splitmix(&mut s) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        Rng([splitmix(&mut t), splitmix(&mut t), splitmix(&mut t), splitmix(&mut t)])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn logrange(&mut self, a: f64, b: f64) -> f64 {
        (self.range(a.ln(), b.ln())).exp()
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn expd(&mut self) -> f64 {
        -(1.0 - self.f()).ln()
    }
}
