//! splitmix64/xorshift generator: every random choice of a run comes from VERIF_SEED through it.
#[derive(Clone)]
pub struct Rng(pub std::cell::Cell<u64>);
impl Rng {
    pub fn new(seed: u64, stream: &str, case: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in stream.bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= case.wrapping_mul(0xD1342543DE82EF95);
        let r = Rng(std::cell::Cell::new(h));
        r.next();
        r.next();
        r
    }
    pub fn next(&self) -> u64 {
        self.0.set(self.0.get().wrapping_add(0x9E3779B97F4A7C15));
        let mut z = self.0.get();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// inclusive
    pub fn range(&self, a: i64, b: i64) -> i64 {
        (a as i128 + self.below((b as i128 - a as i128 + 1) as u64) as i128) as i64
    }
    pub fn us(&self, a: usize, b: usize) -> usize {
        self.range(a as i64, b as i64) as usize
    }
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn f(&self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn pt(&self, m: i64) -> [i64; 2] {
        [self.range(-m, m), self.range(-m, m)]
    }
}

/// FNV-1a
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
