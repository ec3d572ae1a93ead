//! Small deterministic generator for workloads (all randomness of a run comes from VERIF_SEED).
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15))) }
    pub fn fork(seed: u64, a: u64) -> Self { Rng::new(mix(seed) ^ mix(a.wrapping_mul(0xd1342543de82ef95).wrapping_add(1))) }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize { (((self.next() >> 32) * n as u64) >> 32) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// n distinct cards in random order
    pub fn deal(&mut self, n: usize) -> Vec<u8> {
        let mut d: Vec<u8> = (0..52).collect();
        for i in 0..n {
            let j = i + self.below(52 - i);
            d.swap(i, j);
        }
        d.truncate(n);
        d
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
