//! The one source of choices of every generator: a seeded PRNG, or the bytes a
//! coverage-guided fuzzer hands in (all zero once they run out).

pub enum Src<'a> {
    Rng(u64),
    Bytes(&'a [u8]),
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl<'a> Src<'a> {
    pub fn seeded(parts: &[u64]) -> Src<'static> {
        let mut s = 0x9e3779b97f4a7c15;
        for p in parts {
            s = mix(s ^ mix(p.wrapping_add(0x9e3779b97f4a7c15)));
        }
        Src::Rng(s)
    }
    pub fn exhausted(&self) -> bool {
        matches!(self, Src::Bytes(b) if b.is_empty())
    }
    fn bytes(&mut self, n: usize) -> u64 {
        match self {
            Src::Rng(s) => {
                *s = s.wrapping_add(0x9e3779b97f4a7c15);
                mix(*s)
            }
            Src::Bytes(b) => {
                let mut v = 0u64;
                for _ in 0..n {
                    let (x, rest) = match b.split_first() {
                        Some((x, rest)) => (*x, rest),
                        None => (0, &b[..]),
                    };
                    *b = rest;
                    v = v << 8 | x as u64;
                }
                v
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.bytes(8)
    }
    pub fn u32(&mut self) -> u32 {
        self.bytes(4) as u32
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let w = if n <= 256 {
            1
        } else if n <= 65536 {
            2
        } else {
            4
        };
        (self.bytes(w) % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == n - 1 && n > 0
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, of: &'b [T]) -> &'b T {
        &of[self.below(of.len())]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.below(total.max(1) as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
}
