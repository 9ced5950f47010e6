//! The only source of choices: one seed, one stream.

pub fn mix(x: u64) -> u64 {
    let mut x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed)) }
    pub fn from(parts: &[u64]) -> Self {
        let mut s = 0x51_7c_c1_b7_27_22_0a_95u64;
        for p in parts {
            s = mix(s ^ mix(*p));
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let x = self.0;
        let x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        let x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
        x ^ (x >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, percent: usize) -> bool { self.below(100) < percent }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    /// -1..1
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0 }
}

/// A stable 64 bit fingerprint.
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
    }
    h
}
