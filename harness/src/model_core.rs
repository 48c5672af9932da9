// An executable reference model of BLAKE2, written from the specification (blake2.pdf, RFC 7693):
// parameter block as bytes, one compression function, one sequential hasher, and the tree of the
// parallel variants built out of sequential hashers. Included twice (`model::b`, `model::s`); the
// including module supplies W (word type), the byte sizes, IV, ROUNDS and the rotation constants.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct P {
    pub hash_length: usize,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf_length: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_hash_length: usize,
    pub last_node: bool,
}

impl Default for P {
    fn default() -> P {
        P {
            hash_length: OUT,
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            max_depth: 1,
            max_leaf_length: 0,
            node_offset: 0,
            node_depth: 0,
            inner_hash_length: 0,
            last_node: false,
        }
    }
}

impl P {
    pub fn block(&self) -> Vec<u8> {
        let mut b: Vec<u8> = vec![];
        b.push(self.hash_length as u8);
        b.push(self.key.len() as u8);
        b.push(self.fanout);
        b.push(self.max_depth);
        b.extend_from_slice(&self.max_leaf_length.to_le_bytes());
        b.extend_from_slice(&self.node_offset.to_le_bytes()[..NODE_OFFSET_BYTES]);
        b.push(self.node_depth);
        b.push(self.inner_hash_length as u8);
        b.resize(OUT / 2, 0); // reserved bytes (BLAKE2b: 14, BLAKE2s: none)
        let mut salt = self.salt.clone();
        salt.resize(OUT / 4, 0);
        b.extend_from_slice(&salt);
        let mut personal = self.personal.clone();
        personal.resize(OUT / 4, 0);
        b.extend_from_slice(&personal);
        assert_eq!(b.len(), OUT);
        b
    }
}

const PERM: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

#[inline(always)]
fn mix(v: &mut [W; 16], a: usize, b: usize, c: usize, d: usize, x: W, y: W) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(ROT[0]);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(ROT[1]);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(ROT[2]);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(ROT[3]);
}

fn compress(h: &mut [W; 8], block: &[u8; BLOCK], t: u128, f0: bool, f1: bool) {
    let mut m = [0 as W; 16];
    for i in 0..16 {
        m[i] = W::from_le_bytes(block[i * WB..(i + 1) * WB].try_into().unwrap());
    }
    let mut v = [0 as W; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as W;
    v[13] ^= (t >> (8 * WB)) as W;
    if f0 {
        v[14] = !v[14];
    }
    if f1 {
        v[15] = !v[15];
    }
    for r in 0..ROUNDS {
        let s = &PERM[r % 10];
        mix(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        mix(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        mix(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        mix(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        mix(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        mix(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        mix(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        mix(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

/// Sequential hasher. `t0` is the number of bytes pretended to have been compressed already
/// (0 except in the counter-carry checks).
#[derive(Clone)]
pub struct H {
    h: [W; 8],
    t: u128,
    buf: [u8; BLOCK],
    n: usize,
    pub last_node: bool,
    out: usize,
    pub fed: u128,
}

impl H {
    pub fn new(p: &P) -> H {
        H::with_t0(p, 0)
    }
    pub fn with_t0(p: &P, t0: u128) -> H {
        let pb = p.block();
        let mut h = IV;
        for i in 0..8 {
            h[i] ^= W::from_le_bytes(pb[i * WB..(i + 1) * WB].try_into().unwrap());
        }
        let mut s = H { h, t: t0, buf: [0; BLOCK], n: 0, last_node: p.last_node, out: p.hash_length, fed: 0 };
        if !p.key.is_empty() {
            let mut kb = [0u8; BLOCK];
            kb[..p.key.len()].copy_from_slice(&p.key);
            s.feed(&kb);
        }
        s.fed = 0;
        s
    }
    pub fn feed(&mut self, mut data: &[u8]) {
        self.fed += data.len() as u128;
        while !data.is_empty() {
            if self.n == BLOCK {
                self.t = self.t.wrapping_add(BLOCK as u128);
                compress(&mut self.h, &self.buf, self.t, false, false);
                self.n = 0;
            }
            let k = (BLOCK - self.n).min(data.len());
            self.buf[self.n..self.n + k].copy_from_slice(&data[..k]);
            self.n += k;
            data = &data[k..];
        }
    }
    pub fn digest(&self) -> Vec<u8> {
        let mut h = self.h;
        let mut b = self.buf;
        for x in b[self.n..].iter_mut() {
            *x = 0;
        }
        compress(&mut h, &b, self.t.wrapping_add(self.n as u128), true, self.last_node);
        let mut o: Vec<u8> = vec![];
        for w in h.iter() {
            o.extend_from_slice(&w.to_le_bytes());
        }
        o.truncate(self.out);
        o
    }
}

pub fn hash(p: &P, data: &[u8]) -> Vec<u8> {
    let mut h = H::new(p);
    h.feed(data);
    h.digest()
}

/// The parallel variant: PDEG leaves, one root.
#[derive(Clone)]
pub struct Par {
    leaves: Vec<H>,
    root: P,
    pub fed: u128,
}

impl Par {
    pub fn new(hash_length: usize, key: &[u8]) -> Par {
        Par::with_t0(hash_length, key, 0)
    }
    fn base(hash_length: usize, key: &[u8]) -> P {
        P {
            hash_length,
            key: key.to_vec(),
            fanout: PDEG as u8,
            max_depth: 2,
            inner_hash_length: OUT,
            ..P::default()
        }
    }
    pub fn leaf_params(hash_length: usize, key: &[u8], leaf: usize) -> P {
        P { node_offset: leaf as u64, last_node: leaf == PDEG - 1, ..Par::base(hash_length, key) }
    }
    pub fn with_t0(hash_length: usize, key: &[u8], t0: u128) -> Par {
        let leaves = (0..PDEG)
            .map(|i| {
                let mut h = H::with_t0(&Par::leaf_params(hash_length, key, i), t0);
                h.out = OUT; // leaf outputs are never truncated
                h
            })
            .collect();
        let root = P { node_depth: 1, last_node: true, ..Par::base(hash_length, key) };
        Par { leaves, root, fed: 0 }
    }
    pub fn feed(&mut self, mut data: &[u8]) {
        while !data.is_empty() {
            let leaf = ((self.fed / BLOCK as u128) % PDEG as u128) as usize;
            let room = BLOCK - (self.fed % BLOCK as u128) as usize;
            let k = room.min(data.len());
            self.leaves[leaf].feed(&data[..k]);
            self.fed += k as u128;
            data = &data[k..];
        }
    }
    pub fn digest(&self) -> Vec<u8> {
        self.root_of(&self.leaves.iter().map(|l| l.digest()).collect::<Vec<_>>())
    }
    /// the root over given leaf digests
    pub fn root_digest(hash_length: usize, key: &[u8], leaves: &[Vec<u8>]) -> Vec<u8> {
        Par::new(hash_length, key).root_of(leaves)
    }
    fn root_of(&self, leaves: &[Vec<u8>]) -> Vec<u8> {
        // The key length is part of the root's parameters, but the root absorbs no key block.
        let mut r = H::new(&P { key: vec![], ..self.root.clone() });
        r.h[0] ^= (self.root.key.len() as W) << 8;
        for l in leaves {
            r.feed(l);
        }
        r.digest()
    }
}

pub fn par_hash(hash_length: usize, key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut h = Par::new(hash_length, key);
    h.feed(data);
    h.digest()
}
