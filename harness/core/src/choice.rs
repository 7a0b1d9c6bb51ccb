//! A finite sequence of choices that drives every generator. All randomness of a case is in this
//! sequence, so a case is replayed from it and shrunk by shortening it and lowering its elements:
//! an exhausted sequence yields zeros and zero always selects the simplest alternative.
use crate::lits::lits;

pub struct Ch<'a> {
    d: &'a [u32],
    p: usize,
}

impl<'a> Ch<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Self { d, p: 0 }
    }
    pub fn next(&mut self) -> u32 {
        let v = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        v
    }
    /// A value in `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            self.next() as usize % n
        }
    }
    /// True with probability `num / den`, false if exhausted.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.pick(den) >= den - num
    }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())]
    }
    /// Choices for a secondary purpose, expanded from one of these: all zero one time in three.
    pub fn fork(&mut self) -> Vec<u32> {
        let k = self.next() as u64;
        if k % 3 == 0 {
            return vec![];
        }
        (0..400).map(|i| mix(mix(k) ^ i) as u32).collect()
    }
    pub fn exhausted(&self) -> bool {
        self.p >= self.d.len()
    }
    /// Number of choices left.
    pub fn left(&self) -> usize {
        self.d.len().saturating_sub(self.p)
    }
    /// A list length: mostly small, sometimes large.
    pub fn len(&mut self, min: usize) -> usize {
        const T: [usize; 24] = [
            0, 1, 2, 1, 2, 3, 0, 1, 2, 3, 4, 1, 2, 0, 1, 2, 3, 4, 5, 1, 2, 6, 8, 99,
        ];
        let t = T[self.pick(24)];
        let n = if t != 99 {
            t
        } else if lits().sizes.is_empty() || self.pick(2) == 0 {
            9 + self.pick(40)
        } else {
            crate::lits::size(self, 300).unwrap_or(9)
        };
        n.max(min)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
