//! The one source of randomness. Every choice of a run derives from its 64-bit run seed.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3)
    })
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let a = mix(seed);
        Rng { s: [a, mix(a) | 1] }
    }
    pub fn u64(&mut self) -> u64 {
        let (mut a, b) = (self.s[0], self.s[1]);
        let r = a.wrapping_add(b);
        self.s[0] = b;
        a ^= a << 23;
        self.s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        mix(r)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn frange(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// log-uniform
    pub fn logrange(&mut self, a: f64, b: f64) -> f64 {
        (self.frange(a.ln(), b.ln())).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
    /// index drawn by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// an f64 that is exactly an f32
    pub fn f32v(&mut self, a: f64, b: f64) -> f64 {
        self.frange(a, b) as f32 as f64
    }
}
