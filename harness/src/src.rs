//! Source of choices. Every random decision of a generator is drawn from
//! here: either a PRNG seeded from (VERIF_SEED, property, case index), or the
//! bytes handed over by a coverage-guided fuzzer.

pub enum Src<'a> {
    Prng([u64; 4]),
    Bytes(&'a [u8], usize),
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64, stream: u64, case: u64) -> Src<'static> {
        let mut z = mix(mix(mix(seed) ^ stream) ^ case);
        let mut s = [0; 4];
        for x in &mut s {
            z = mix(z);
            *x = z;
        }
        Src::Prng(s)
    }
    pub fn bytes(b: &'a [u8]) -> Src<'a> {
        Src::Bytes(b, 0)
    }
    /// A byte source that has run dry goes on with a fixed random sequence:
    /// no generator may wait forever for a choice it likes.
    fn refill(&mut self) {
        if let Src::Bytes(b, i) = self {
            if *i >= b.len() {
                *self = Src::seeded(0, 0, 0);
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.refill();
        match self {
            Src::Prng(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Src::Bytes(b, i) => {
                let mut r = 0u64;
                for _ in 0..8 {
                    r = r << 8 | *b.get(*i).unwrap_or(&0) as u64;
                    *i += 1;
                }
                r
            }
        }
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.refill();
        match self {
            Src::Prng(_) => ((self.u64() as u128 * n as u128) >> 64) as usize,
            Src::Bytes(b, i) => {
                let x = *b.get(*i).unwrap_or(&0) as usize;
                *i += 1;
                if n <= 256 {
                    x % n
                } else {
                    let y = *b.get(*i).unwrap_or(&0) as usize;
                    *i += 1;
                    (x << 8 | y) % n
                }
            }
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'t, T>(&mut self, v: &'t [T]) -> &'t T {
        &v[self.below(v.len())]
    }
    /// Index drawn with the given weights (not all zero).
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}
