//! Deterministic random numbers: a case is determined by (seed, property, index).
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, idx: u64) -> Rng {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        h ^= idx.wrapping_mul(0xD1B54A32D192ED03);
        let mut r = Rng(h | 1);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { (self.next() % (k.max(1) as u64)) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn b(&mut self) -> bool { self.n(2) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
}
