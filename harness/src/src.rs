//! Choice source: every random decision of a case comes from here, so a case is identified by one
//! 64-bit number (or, under libFuzzer, by one byte string).

pub enum Kind {
    Rng(u64),
    Bytes(Vec<u8>, usize),
}
pub struct Src {
    k: Kind,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Src {
    pub fn rng(seed: u64) -> Src {
        Src { k: Kind::Rng(seed) }
    }
    pub fn bytes(b: &[u8]) -> Src {
        Src { k: Kind::Bytes(b.to_vec(), 0) }
    }
    fn raw(&mut self, n: usize) -> u64 {
        match &mut self.k {
            Kind::Rng(s) => splitmix(s),
            Kind::Bytes(b, p) => {
                let mut v = 0u64;
                for i in 0..n {
                    let x = b.get(*p).copied().unwrap_or(0);
                    *p += 1;
                    v |= (x as u64) << (8 * i);
                }
                v
            }
        }
    }
    pub fn exhausted(&self) -> bool {
        match &self.k {
            Kind::Rng(_) => false,
            Kind::Bytes(b, p) => *p >= b.len(),
        }
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(8)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let w = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 5 };
        (self.raw(w) % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// message or key material: several shapes, all derived from one seed
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        let kind = self.below(10);
        let mut x = self.raw(2) ^ ((n as u64) << 20) ^ 0x1234_5678_9abc;
        let mut v = vec![0u8; n];
        match kind {
            0 => {}
            1 => v.iter_mut().for_each(|b| *b = 0xff),
            2 => {
                let r = x as u8;
                v.iter_mut().for_each(|b| *b = r)
            }
            3 => {
                for (i, c) in v.chunks_mut(4).enumerate() {
                    let w = (i as u32 + 1).to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
            4 => {
                // words at the edges of signed and unsigned ranges
                for c in v.chunks_mut(4) {
                    let r = splitmix(&mut x);
                    let w: u32 = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x80, 0xff00ff00, r as u32][(r >> 33) as usize % 8];
                    c.copy_from_slice(&w.to_le_bytes()[..c.len()]);
                }
            }
            5 => {
                // 32-byte pieces: zeros, ones, the piece before, or random
                for i in 0..(n + 31) / 32 {
                    let (a, b) = (32 * i, n.min(32 * i + 32));
                    let r = splitmix(&mut x);
                    match r >> 61 {
                        0 | 1 => {}
                        2 => v[a..b].fill(0xff),
                        3 if i > 0 => v.copy_within(a - 32..b - 32, a),
                        4 if i > 7 => v.copy_within(a - 256..b - 256, a),
                        _ => {
                            for c in v[a..b].chunks_mut(8) {
                                let w = splitmix(&mut x).to_le_bytes();
                                c.copy_from_slice(&w[..c.len()]);
                            }
                        }
                    }
                }
            }
            _ => {
                for c in v.chunks_mut(8) {
                    let w = splitmix(&mut x).to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
