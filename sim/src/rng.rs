//! The only source of choices: a seeded generator.
use crate::rt::mix;

#[derive(Clone)]
pub struct Rng {
    s: u64,
    /// values generated before for this run, the latest last: arguments of one run are often related
    pool: Vec<(u8, Vec<u8>)>,
    /// arguments are not to repeat each other (where memory is searched for one of them)
    pub plain: bool,
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { s: mix(seed ^ 0x6b73_696d), pool: vec![], plain: false }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.s)
    }
    /// Keeps a generated value of some kind.
    pub fn note(&mut self, kind: u8, b: &[u8]) {
        if self.pool.len() >= 24 {
            self.pool.remove(0);
        }
        self.pool.push((kind, b.to_vec()));
    }
    /// One of the kept values of these kinds, the latest most likely.
    pub fn recall(&mut self, kinds: &[u8]) -> Option<Vec<u8>> {
        if self.plain {
            return None;
        }
        let c: Vec<usize> = (0..self.pool.len()).filter(|i| kinds.contains(&self.pool[*i].0)).collect();
        if c.is_empty() {
            return None;
        }
        let i = if self.pct(60) { c[c.len() - 1] } else { c[self.below(c.len())] };
        Some(self.pool[i].1.clone())
    }
    /// n bytes of a kept value, from one of its ends or somewhere within.
    pub fn recall_n(&mut self, kinds: &[u8], n: usize) -> Option<Vec<u8>> {
        let v = self.recall(kinds)?;
        if v.len() < n {
            return None;
        }
        let at = match self.below(4) {
            0 => v.len() - n,
            1 => self.below(v.len() - n + 1),
            _ => 0,
        };
        Some(v[at..at + n].to_vec())
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 40) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() >> 11) % n as u64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// 1..=max, logarithmically distributed
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.u64() % bits + 1;
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let lo = 1u64 << (b - 1);
        (lo + self.u64() % (hi - lo + 1)).min(max)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// A stable hash of bytes (FNV-1a, finished with a mixer).
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
