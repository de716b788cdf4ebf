//! Recorded choice source: every generator draws from it, so a case is a pure function of a
//! choice sequence, and shrinking works on the sequence.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0xABCD_EF01_2345_6789) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut a = self.0;
        let b = self.1;
        self.0 = b;
        a ^= a << 23;
        self.1 = a ^ b ^ (a >> 17) ^ (b >> 26);
        mix(self.1.wrapping_add(b))
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub record: Vec<u64>,
    pub limit: usize,
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, record: vec![], limit: 200_000, log: None }
    }
    pub fn from_choices(c: Vec<u64>) -> Self {
        Src { rng: None, replay: c, pos: 0, record: vec![], limit: 200_000, log: None }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let n = n as u64;
        let v = if self.record.len() >= self.limit {
            0
        } else if let Some(r) = &mut self.rng {
            r.next() % n
        } else {
            let v = self.replay.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            if v < n {
                v
            } else {
                v % n
            }
        };
        self.record.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v as usize
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32) as u64;
        let lo = self.below(1 << 32) as u64;
        (hi << 32) | lo
    }
    /// true with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// index by weights; first alternatives are the simplest
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let tot: usize = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
