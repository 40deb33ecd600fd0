//! The only source of choice: xoshiro256** seeded by splitmix64.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 { hash_bytes(0xcbf29ce484222325, s.as_bytes()) }
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &c in b { h ^= c as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0u64; 4];
        for x in s.iter_mut() { z = z.wrapping_add(0x9E3779B97F4A7C15); *x = mix(z); }
        Rng { s }
    }
    pub fn derive(seed: u64, tag: u64) -> Self { Rng::new(mix(seed ^ mix(tag))) }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn chance(&mut self, pct: u32) -> bool { self.u64() % 100 < pct as u64 }
    pub fn permille(&mut self, p: u32) -> bool { self.u64() % 1000 < p as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn f01(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
}
