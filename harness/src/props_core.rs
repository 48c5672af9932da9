// Included by props::b and props::s. `lib` is the crate under test, `par` its parallel module,
// `m` the reference model.
use crate::{gen_len, hex, lits, panics, Cx, Src, CHECKED, R};

pub const BLOCK: usize = m::BLOCK;
pub const STRIPE: usize = m::BLOCK * m::PDEG;
pub const OUT: usize = m::OUT;
pub const KEY: usize = m::KEY;
pub const SALT: usize = m::SALT;

use lib::many::{hash_many, update_many, HashManyJob};

// ---------------------------------------------------------------- parameters

fn gen_key_len(s: &mut Src) -> usize {
    match s.below(8) {
        0..=2 => 0,
        3 => KEY,
        4 => 1,
        5 => KEY - 1,
        _ => s.range(0, KEY),
    }
}
fn gen_hash_len(s: &mut Src) -> usize {
    match s.below(8) {
        0..=3 => OUT,
        4 => 1,
        _ => s.range(1, OUT),
    }
}
fn gen_u8(s: &mut Src) -> u8 {
    match s.below(4) {
        0 => s.pick(&[0u8, 1, 2, 127, 128, 254, 255]),
        _ => s.below(256) as u8,
    }
}
fn gen_bits(s: &mut Src, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let v = match s.below(6) {
        0 => 1u64 << s.below(bits as usize),
        1 => (1u64 << s.below(bits as usize)).wrapping_sub(1),
        2 => mask,
        3 => s.below(300) as u64,
        4 if !lits().is_empty() => lits()[s.below(lits().len())].wrapping_add(s.below(3) as u64).wrapping_sub(1),
        _ => s.u64() >> s.below(64),
    };
    v & mask
}

/// a legal parameter set and the builder that carries it
pub fn gen_params(s: &mut Src) -> (lib::Params, m::P) {
    let mut p = m::P::default();
    let mut l = lib::Params::new();
    if s.chance(1, 3) {
        return (l, p);
    }
    p.hash_length = gen_hash_len(s);
    let kl = gen_key_len(s);
    p.key = s.data(kl);
    if s.flip() {
        let n = { let t_ = [SALT, s.range(0, SALT)]; s.pick(&t_) };
        p.salt = s.data(n);
    }
    if s.flip() {
        let n = { let t_ = [SALT, s.range(0, SALT)]; s.pick(&t_) };
        p.personal = s.data(n);
    }
    if s.chance(2, 5) {
        p.fanout = gen_u8(s);
        p.max_depth = gen_u8(s);
        p.max_leaf_length = gen_bits(s, 32) as u32;
    }
    if s.chance(2, 5) {
        p.node_offset = gen_bits(s, OFF_BITS);
        p.node_depth = gen_u8(s);
        p.inner_hash_length = { let t_ = [0, OUT, s.range(0, OUT)]; s.pick(&t_) };
    }
    p.last_node = s.chance(1, 3);
    build(&mut l, &p);
    if s.chance(1, 12) {
        force_portable(&mut l);
    }
    (l, p)
}
/// the same parameters but for one of them
fn neighbour(s: &mut Src, p: &m::P) -> (lib::Params, m::P) {
    let mut p = p.clone();
    match s.below(11) {
        0 => p.hash_length = gen_hash_len(s),
        1 => {
            // another key of the same length, or one byte longer or shorter
            match s.below(3) {
                0 if !p.key.is_empty() => {
                    let k = s.below(p.key.len());
                    p.key[k] ^= 1 << s.below(8)
                }
                1 if p.key.len() < KEY => p.key.push(s.below(2) as u8),
                _ => {
                    p.key.pop();
                }
            }
        }
        2 => p.salt = s.data(SALT),
        3 => p.personal = s.data(SALT),
        4 => p.fanout = gen_u8(s),
        5 => p.max_depth = gen_u8(s),
        6 => p.max_leaf_length = gen_bits(s, 32) as u32,
        7 => p.node_offset = gen_bits(s, OFF_BITS),
        8 => p.node_depth = gen_u8(s),
        9 => p.inner_hash_length = s.range(0, OUT),
        _ => p.last_node = !p.last_node,
    }
    let mut l = lib::Params::new();
    build(&mut l, &p);
    (l, p)
}
pub fn build(l: &mut lib::Params, p: &m::P) {
    l.hash_length(p.hash_length)
        .key(&p.key)
        .salt(&p.salt)
        .personal(&p.personal)
        .fanout(p.fanout)
        .max_depth(p.max_depth)
        .max_leaf_length(p.max_leaf_length)
        .node_offset(p.node_offset as OffT)
        .node_depth(p.node_depth)
        .inner_hash_length(p.inner_hash_length)
        .last_node(p.last_node);
}
pub fn gen_par_params(s: &mut Src) -> (par::Params, m::P) {
    let mut p = m::P::default();
    let mut l = par::Params::new();
    if s.chance(1, 3) {
        return (l, p);
    }
    p.hash_length = gen_hash_len(s);
    let kl = gen_key_len(s);
    p.key = s.data(kl);
    l.hash_length(p.hash_length).key(&p.key);
    if s.chance(1, 12) {
        force_portable_par(&mut l);
    }
    (l, p)
}
fn pdesc(p: &m::P) -> String {
    let d = m::P::default();
    let mut o = vec![];
    if p.hash_length != d.hash_length {
        o.push(format!("hash_length={}", p.hash_length));
    }
    if !p.key.is_empty() {
        o.push(format!("key={}", hex(&p.key)));
    }
    if !p.salt.is_empty() {
        o.push(format!("salt={}", hex(&p.salt)));
    }
    if !p.personal.is_empty() {
        o.push(format!("personal={}", hex(&p.personal)));
    }
    if (p.fanout, p.max_depth, p.max_leaf_length) != (1, 1, 0) {
        o.push(format!("fanout={} max_depth={} max_leaf_length={}", p.fanout, p.max_depth, p.max_leaf_length));
    }
    if (p.node_offset, p.node_depth, p.inner_hash_length) != (0, 0, 0) {
        o.push(format!("node_offset={} node_depth={} inner_hash_length={}", p.node_offset, p.node_depth, p.inner_hash_length));
    }
    if p.last_node {
        o.push("last_node".into());
    }
    if o.is_empty() {
        "default".into()
    } else {
        o.join(" ")
    }
}
fn note_params(cx: &mut Cx, p: &m::P) {
    cx.note(p.hash_length);
    cx.note(p.key.len() << 1 | p.last_node as usize);
    cx.note(p.salt.len() << 8 | p.personal.len());
    for b in p.key.iter().chain(&p.salt).chain(&p.personal) {
        cx.note(*b as usize);
    }
    cx.note(p.node_offset as usize ^ (p.max_leaf_length as usize) << 9);
    cx.note(p.fanout as usize | (p.max_depth as usize) << 8 | (p.node_depth as usize) << 16 | p.inner_hash_length << 24);
}
fn note_data(cx: &mut Cx, d: &[u8]) {
    cx.note(d.len());
    for i in [0, 1, 7, 31, 63, 100, 127] {
        if let Some(b) = d.get(i) {
            cx.note(*b as usize);
        }
    }
}

// ---------------------------------------------------------------- a hasher and its model

#[derive(Clone)]
pub enum L {
    S(lib::State),
    P(par::State),
}
#[derive(Clone)]
pub enum M {
    S(m::H),
    P(m::Par),
}
#[derive(Clone)]
pub struct Pair {
    pub l: L,
    pub m: M,
    pub fed: u128,
    pub keyed: bool,
}
impl Pair {
    pub fn gen(s: &mut Src, cx: &mut Cx, parallel: bool) -> Pair {
        if parallel {
            let (l, p) = gen_par_params(s);
            cx.d(|| format!("{} {}", PNAME, pdesc(&p)));
            note_params(cx, &p);
            let l = if p == m::P::default() && s.flip() {
                if s.flip() { par::State::new() } else { par::State::default() }
            } else {
                l.to_state()
            };
            Pair { l: L::P(l), m: M::P(m::Par::new(p.hash_length, &p.key)), fed: 0, keyed: !p.key.is_empty() }
        } else {
            let (l, p) = gen_params(s);
            cx.d(|| format!("{} {}", NAME, pdesc(&p)));
            note_params(cx, &p);
            let l = if p == m::P::default() && s.flip() {
                if s.flip() { lib::State::new() } else { lib::State::default() }
            } else {
                l.to_state()
            };
            Pair { l: L::S(l), m: M::S(m::H::new(&p)), fed: 0, keyed: !p.key.is_empty() }
        }
    }
    pub fn model(&mut self, d: &[u8]) {
        if !crate::oracle_off() {
            match &mut self.m {
                M::S(x) => x.feed(d),
                M::P(x) => x.feed(d),
            }
        }
        self.fed += d.len() as u128;
    }
    /// feeds the library object; `how` picks the interface
    pub fn feed(&mut self, d: &[u8], how: usize) -> R {
        #[cfg(feature = "std")]
        {
            use std::io::Write;
            fn wr<Wr: Write>(w: &mut Wr, d: &[u8], how: usize) -> R {
                match how {
                    1 => {
                        let n = w.write(d).map_err(|e| format!("write of {} bytes failed: {}", d.len(), e))?;
                        if n != d.len() {
                            return Err(format!("write of {} bytes returned {}", d.len(), n));
                        }
                    }
                    2 => {
                        w.write_all(d).map_err(|e| format!("write_all failed: {}", e))?;
                        w.flush().map_err(|e| format!("flush failed: {}", e))?;
                    }
                    3 => {
                        let mut r = d;
                        let n = std::io::copy(&mut r, w).map_err(|e| format!("copy failed: {}", e))?;
                        if n != d.len() as u64 {
                            return Err(format!("copy of {} bytes returned {}", d.len(), n));
                        }
                    }
                    _ => {
                        let (a, b) = d.split_at(d.len() / 3);
                        let (b, c) = b.split_at(b.len() * (d.len() % 4) / 3);
                        let e: &[u8] = &[];
                        let io = [a, e, b, c, e].map(std::io::IoSlice::new);
                        let io = &io[..if d.len() % 7 == 3 { 4 } else { 5 }];
                        let mut done = w.write_vectored(io).map_err(|e| format!("write_vectored failed: {}", e))?;
                        if done > d.len() {
                            return Err(format!("write_vectored of {} bytes returned {}", d.len(), done));
                        }
                        while done < d.len() {
                            let n = w.write(&d[done..]).map_err(|e| format!("write failed: {}", e))?;
                            if n != d.len() - done {
                                return Err(format!("write of {} bytes returned {}", d.len() - done, n));
                            }
                            done += n;
                        }
                    }
                }
                Ok(())
            }
            if how > 0 {
                match &mut self.l {
                    L::S(x) => wr(x, d, how)?,
                    L::P(x) => wr(x, d, how)?,
                }
                self.model(d);
                return Ok(());
            }
        }
        let _ = how;
        match &mut self.l {
            L::S(x) => {
                x.update(d);
            }
            L::P(x) => {
                x.update(d);
            }
        }
        self.model(d);
        Ok(())
    }
    pub fn digest(&self) -> lib::Hash {
        match &self.l {
            L::S(x) => x.finalize(),
            L::P(x) => x.finalize(),
        }
    }
    pub fn want(&self) -> Vec<u8> {
        match &self.m {
            M::S(x) => x.digest(),
            M::P(x) => x.digest(),
        }
    }
    pub fn count(&self) -> u128 {
        match &self.l {
            L::S(x) => x.count() as u128,
            L::P(x) => x.count() as u128,
        }
    }
    pub fn parallel(&self) -> bool {
        matches!(self.l, L::P(_))
    }
    pub fn check(&self, cx: &mut Cx, what: &str) -> R {
        let h = self.digest();
        cx.eq(what, h.as_bytes(), || self.want())
    }
    pub fn check_count(&self, cx: &mut Cx, what: &str) -> R {
        cx.ev("counts compared");
        let c = self.count();
        cx.saw(&c.to_le_bytes());
        if c != self.fed {
            return Err(format!("{}: count() is {} after {} bytes", what, c, self.fed));
        }
        Ok(())
    }
    fn unit(&self) -> usize {
        if self.parallel() { STRIPE } else { BLOCK }
    }
    /// bytes that the buffer of a correct implementation may hold back, as an abstract state
    fn fill(&self) -> usize {
        (self.fed % (2 * STRIPE) as u128) as usize
    }
}

// ---------------------------------------------------------------- C01 C02: one shot

fn c01(s: &mut Src, cx: &mut Cx) -> R {
    let (l, p) = gen_params(s);
    let n = gen_len(s, BLOCK, cx.max_len);
    let d = s.data(n);
    let d = cx.input(&d, s);
    note_params(cx, &p);
    note_data(cx, d);
    cx.nontrivial = n > 0 || p != m::P::default();
    cx.d(|| format!("{} {} len={} data={}", NAME, pdesc(&p), n, hex(&d[..n.min(64)])));
    cx.state(&[1, p.hash_length, p.key.len(), (n + BLOCK - 1) / BLOCK, (n % BLOCK == 0) as usize]);
    let h = l.hash(d);
    cx.eq("Params::hash", h.as_bytes(), || m::hash(&p, d))?;
    if p == m::P::default() {
        cx.eq(NAME, oneshot(d).as_bytes(), || m::hash(&p, d))?;
    }
    Ok(())
}
fn c02(s: &mut Src, cx: &mut Cx) -> R {
    let (l, p) = gen_par_params(s);
    let u = if s.flip() { BLOCK } else { STRIPE };
    let n = gen_len(s, u, cx.max_len);
    let d = s.data(n);
    let d = cx.input(&d, s);
    note_params(cx, &p);
    note_data(cx, d);
    cx.nontrivial = n > 0 || p != m::P::default();
    cx.d(|| format!("{} {} len={} data={}", PNAME, pdesc(&p), n, hex(&d[..n.min(64)])));
    cx.state(&[2, p.hash_length, p.key.len(), (n + BLOCK - 1) / BLOCK, (n % BLOCK == 0) as usize]);
    cx.eq("Params::hash", l.hash(d).as_bytes(), || m::par_hash(p.hash_length, &p.key, d))?;
    if p == m::P::default() {
        cx.eq(PNAME, par_oneshot(d).as_bytes(), || m::par_hash(OUT, &[], d))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03: incremental

fn c03(s: &mut Src, cx: &mut Cx) -> R {
    let parallel = s.flip();
    let mut x = Pair::gen(s, cx, parallel);
    let unit = x.unit();
    let pieces = match s.below(8) {
        0 => s.below(200),
        _ => s.below(12),
    };
    let cap = if pieces > 20 { 300 } else if s.chance(1, 12) { cx.max_len } else { 12 * unit };
    // one message, cut into pieces, so that neighbouring pieces are adjacent in memory
    let lens: Vec<usize> = (0..pieces)
        .map(|_| match s.below(8) {
            0 => 0,
            1 => 1,
            2 => unit - (s.below(4)),
            3 => gen_len(s, BLOCK, cap),
            _ => gen_len(s, unit, cap),
        })
        .collect();
    let total: usize = lens.iter().sum();
    let d = s.data(total);
    let d = cx.input(&d, s);
    note_data(cx, d);
    let mut at = 0;
    cx.nontrivial = pieces > 1 && total > 0;
    for n in &lens {
        let how = if s.chance(1, 3) { s.below(5) } else { 0 };
        cx.state(&[3, parallel as usize, x.keyed as usize, x.fill(), (*n).min(2 * STRIPE + 1)]);
        cx.note(*n << 3 | how);
        cx.d(|| format!("feed {} bytes via interface {}", n, how));
        cx.ev(if how == 0 { "updates" } else { "writes" });
        x.feed(&d[at..at + n], how)?;
        at += n;
        if s.chance(1, 6) {
            cx.ev("mid-stream digests");
            x.check(cx, "mid-stream digest")?;
        }
    }
    x.check(cx, "digest after all pieces")?;
    Ok(())
}

// ---------------------------------------------------------------- C04: life cycle

fn c04(s: &mut Src, cx: &mut Cx) -> R {
    let parallel = s.flip();
    // one hasher, or several with parameters of their own
    let mut v: Vec<Pair> = (0..s.pick(&[1, 1, 2, 3])).map(|_| Pair::gen(s, cx, parallel)).collect();
    let unit = v[0].unit();
    let ops = s.range(3, 24);
    for _ in 0..ops {
        let i = s.below(v.len());
        let op = s.below(16);
        cx.note(op << 8 | i);
        cx.state(&[4, parallel as usize, v[i].keyed as usize, v[i].fill(), op.min(12)]);
        match op {
            0..=5 => {
                let n = match s.below(4) {
                    0 => s.below(3),
                    1 => (unit - v[i].fill() % unit).saturating_sub(1) + s.below(3), // to the edge
                    _ => gen_len(s, unit, 9 * unit),
                };
                let d = s.data(n);
                let d = cx.input(&d, s);
                note_data(cx, d);
                cx.ev("updates");
                cx.d(|| format!("#{} update {} bytes", i, n));
                v[i].feed(d, 0)?;
            }
            6 | 7 => {
                cx.ev("double finalize");
                cx.d(|| format!("#{} finalize twice", i));
                v[i].check(cx, "finalize")?;
                v[i].check(cx, "second finalize")?;
            }
            8 => {
                cx.d(|| format!("#{} count", i));
                v[i].check_count(cx, "count")?;
            }
            9 | 10 if v.len() < 6 => {
                cx.ev("clones");
                cx.d(|| format!("#{} cloned to #{}", i, v.len()));
                let c = v[i].clone();
                v.push(c);
            }
            11 => {
                // overwrite one member of the family by another
                let j = s.below(v.len());
                cx.ev("clone_from");
                cx.d(|| format!("#{} becomes a copy of #{}", i, j));
                if i != j {
                    let (a, b) = if i < j {
                        let (x, y) = v.split_at_mut(j);
                        (&mut x[i], &y[0])
                    } else {
                        let (x, y) = v.split_at_mut(i);
                        (&mut y[0], &x[j])
                    };
                    match (&mut a.l, &b.l) {
                        (L::S(p), L::S(q)) => p.clone_from(q),
                        (L::P(p), L::P(q)) => p.clone_from(q),
                        _ => {}
                    }
                    a.m = b.m.clone();
                    a.fed = b.fed;
                    a.keyed = b.keyed;
                }
            }
            12 | 13 => {
                let f = s.flip();
                let x = &mut v[i];
                if let (L::S(l), M::S(m)) = (&mut x.l, &mut x.m) {
                    cx.ev("set_last_node");
                    cx.d(|| format!("#{} set_last_node({})", i, f));
                    l.set_last_node(f);
                    m.last_node = f;
                }
            }
            14 => {
                let j = s.below(v.len());
                if s.flip() {
                    v.swap(i, j);
                } else {
                    // a copy takes the place of the original, which is dropped
                    let c = v[i].clone();
                    let old = std::mem::replace(&mut v[i], c);
                    drop(old);
                }
                cx.ev("moves");
            }
            _ => {
                if v.len() > 1 {
                    cx.ev("drops");
                    cx.d(|| format!("#{} dropped", i));
                    v.swap_remove(i);
                }
            }
        }
    }
    cx.nontrivial = v.iter().any(|x| x.fed > 0);
    for (i, x) in v.iter().enumerate() {
        cx.d(|| format!("final check of #{}", i));
        x.check_count(cx, "final count")?;
        x.check(cx, "final digest")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05: hash_many

fn batch_size(s: &mut Src) -> usize {
    match s.below(16) {
        0 => 0,
        1 => 1,
        2..=4 => s.range(MAX_DEG / 2, MAX_DEG + 1),
        5..=8 => s.range(1, 2 * MAX_DEG + 2),
        9 => s.range(20, 70),
        10 => s.pick(&[2, MAX_DEG, 2 * MAX_DEG, 3 * MAX_DEG, 255, 256, 257, 300]),
        _ => s.range(2, 20),
    }
}
/// lengths of one batch: similar, very different, or all equal
fn batch_lens(s: &mut Src, n: usize, max: usize) -> Vec<usize> {
    let shape = s.below(6);
    let base = gen_len(s, BLOCK, max);
    let cap = if n > 32 { 6 * BLOCK } else { max };
    (0..n)
        .map(|_| {
            let v = match shape {
                0 => base,
                1 => (base / BLOCK) * BLOCK + s.below(BLOCK + 1),
                2 => s.below(5) * BLOCK + s.below(3),
                3 => s.pick(&[0, 1, BLOCK, BLOCK + 1, 2 * BLOCK, 10 * BLOCK + 7, base]),
                4 => s.below(9) * BLOCK,
                _ => gen_len(s, BLOCK, max),
            };
            v.min(cap)
        })
        .collect()
}

/// An iterator that is not fused: after its end it has more to give, which nobody may take.
struct Unfused<'c, I: Iterator> {
    it: I,
    more: Option<I::Item>,
    ended: bool,
    taken: &'c std::cell::Cell<bool>,
}
impl<'c, I: Iterator> Iterator for Unfused<'c, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.ended {
            self.taken.set(true);
            return self.more.take();
        }
        let x = self.it.next();
        self.ended = x.is_none();
        x
    }
}

struct JobM {
    j: HashManyJob<'static>,
    p: m::P,
    d: &'static [u8],
    run: bool,
    id: usize,
}
impl JobM {
    fn check(&self, cx: &mut Cx, what: &str) -> R {
        let h = self.j.to_hash();
        cx.eq(&format!("{}: job #{} ({}, {} bytes)", what, self.id, pdesc(&self.p), self.d.len()), h.as_bytes(), || m::hash(&self.p, self.d))
    }
}

fn c05(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 50) {
        return hostile(s, cx, 5 * BLOCK, Some(false));
    }
    let n = batch_size(s);
    let big = s.chance(1, 30);
    let max = if big { cx.max_len } else { 3000 };
    let lens = batch_lens(s, n, max);
    let shared = gen_params(s);
    let uniform = s.chance(1, 3);
    let mut pool: Vec<JobM> = vec![];
    for (id, n) in lens.iter().enumerate() {
        // sometimes the neighbour's parameters but for one, sometimes the very same bytes
        let (l, p) = match pool.last() {
            Some(x) if s.chance(1, 5) => neighbour(s, &x.p),
            _ if uniform => shared.clone(),
            _ => gen_params(s),
        };
        let d = match pool.last() {
            Some(x) if s.chance(1, 5) => {
                let d: &'static [u8] = x.d;
                let k = s.below(d.len() + 1);
                match s.below(6) {
                    0 => &d[..k],
                    1 => &d[k..],
                    _ => d,
                }
            }
            _ => {
                let d = s.data(*n);
                cx.input(&d, s)
            }
        };
        note_params(cx, &p);
        note_data(cx, d);
        cx.d(|| format!("job #{}: {} len={}", id, pdesc(&p), d.len()));
        pool.push(JobM { j: HashManyJob::new(&l, d), p, d, run: false, id });
    }
    cx.nontrivial = pool.len() > 1;
    let rounds = s.range(1, 3);
    for r in 0..rounds {
        // which jobs go in, in which order
        let mut idx: Vec<usize> = (0..pool.len()).collect();
        if r > 0 || s.chance(1, 4) {
            idx.retain(|_| s.chance(2, 3));
        }
        if s.flip() {
            s.shuffle(&mut idx);
        }
        // refuse to read unrun jobs (debug builds)
        let try_unrun = s.chance(1, 4); // (every configuration makes the same choices)
        if CHECKED && try_unrun {
            // a keyed job of an empty message needs no batch: its digest exists from the start
            if let Some(x) = pool.iter().find(|x| !x.run && !x.d.is_empty()) {
                cx.ev("reads of unrun jobs refused");
                if !panics(|| {
                    let _ = x.j.to_hash();
                }) {
                    return Err(format!("job #{} was read before it was run, without a panic", x.id));
                }
            }
        }
        if s.chance(1, 4) && !pool.is_empty() {
            // a clone has a life of its own
            let k = s.below(pool.len());
            let j = if s.flip() {
                pool[k].j.clone()
            } else {
                // over a job with other parameters, another input, perhaps finished
                let (l, _) = gen_params(s);
                let mut j = HashManyJob::new(&l, b"replaced");
                if s.flip() {
                    hash_many(std::iter::once(&mut j));
                }
                j.clone_from(&pool[k].j);
                j
            };
            let c = JobM { j, p: pool[k].p.clone(), d: pool[k].d, run: pool[k].run, id: 1000 + pool.len() };
            cx.ev("jobs cloned");
            cx.d(|| format!("job #{} cloned as #{} (not in this batch)", pool[k].id, c.id));
            pool.push(c);
        }
        cx.ev("hash_many calls");
        cx.evn("jobs batched", idx.len() as u64);
        cx.d(|| format!("hash_many over {:?}", idx));
        cx.note(idx.len() << 4 | r);
        {
            let mut slots: Vec<Option<&mut JobM>> = pool.iter_mut().map(Some).collect();
            let mut sel: Vec<&mut JobM> = vec![];
            for i in &idx {
                sel.push(slots[*i].take().unwrap());
            }
            let mut shape = vec![5usize];
            for x in sel.iter() {
                shape.push(if x.run { 999 } else { (x.d.len() + BLOCK - 1) / BLOCK });
            }
            shape.truncate(2 * MAX_DEG + 2);
            cx.state(&shape);
            for x in sel.iter_mut() {
                x.run = true;
            }
            match s.below(4) {
                3 => {
                    cx.ev("iterators with more behind their end");
                    let taken = std::cell::Cell::new(false);
                    let p = lib::Params::new();
                    let mut spare = HashManyJob::new(&p, b"behind the end");
                    hash_many(Unfused { it: sel.iter_mut().map(|x| &mut x.j), more: Some(&mut spare), ended: false, taken: &taken });
                    if taken.get() {
                        return Err("hash_many took a job after the iterator had ended".into());
                    }
                }
                0 => hash_many(sel.iter_mut().map(|x| &mut x.j)),
                1 => {
                    let refs: Vec<&mut HashManyJob<'static>> = sel.iter_mut().map(|x| &mut x.j).collect();
                    hash_many(refs)
                }
                _ => hash_many(sel.iter_mut().filter(|_| true).map(|x| &mut x.j)),
            }
        }
        for x in pool.iter() {
            if x.run {
                x.check(cx, "after the batch")?;
            }
        }
    }
    // everything left over, alone or together
    if s.flip() {
        for x in pool.iter_mut() {
            hash_many(std::iter::once(&mut x.j));
            x.run = true;
        }
    } else {
        for x in pool.iter_mut() {
            x.run = true;
        }
        hash_many(pool.iter_mut().map(|x| &mut x.j));
    }
    for x in pool.iter() {
        x.check(cx, "at the end")?;
        if x.j.to_hash() != x.j.clone().to_hash() {
            return Err("a clone of a finished job has another digest".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06: update_many

fn c06(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 50) {
        return hostile(s, cx, 5 * BLOCK, Some(true));
    }
    let n = batch_size(s).min(80);
    let shared = s.chance(1, 3);
    let mut pool: Vec<Pair> = vec![];
    let proto = Pair::gen(s, cx, false);
    for _ in 0..n {
        let mut x = match pool.last() {
            Some(x) if s.chance(1, 8) => x.clone(),
            _ if shared => proto.clone(),
            _ => Pair::gen(s, cx, false),
        };
        // any amount buffered before the first batch
        let pre = match s.below(4) {
            0 => 0,
            1 => s.pick(&[1, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK]),
            _ => s.below(2 * BLOCK + 1),
        };
        let d = s.data(pre);
        let d = cx.input(&d, s);
        note_data(cx, d);
        cx.d(|| format!("  #{} starts with {} bytes", pool.len(), pre));
        x.feed(d, 0)?;
        pool.push(x);
    }
    cx.nontrivial = n > 1;
    for _ in 0..s.range(1, 4) {
        let mut idx: Vec<usize> = (0..pool.len()).collect();
        if s.chance(1, 3) {
            idx.retain(|_| s.chance(2, 3));
        }
        if s.flip() {
            s.shuffle(&mut idx);
        }
        let big = s.chance(1, 30);
        let max = if big { cx.max_len } else { 2000 };
        let lens = batch_lens(s, idx.len(), max);
        let mut inputs: Vec<&'static [u8]> = vec![];
        let mut shape = vec![6usize];
        for (k, i) in idx.iter().enumerate() {
            let n = if s.chance(1, 4) {
                // up to exactly the end of the held-back block
                let room = BLOCK - (pool[*i].fed % BLOCK as u128) as usize;
                (room + s.below(3)).saturating_sub(1)
            } else {
                lens[k]
            };
            let d = match inputs.last() {
                Some(d) if s.chance(1, 6) => *d, // the very same bytes
                _ => {
                    let d = s.data(n);
                    cx.input(&d, s)
                }
            };
            let n = d.len();
            note_data(cx, d);
            shape.push((pool[*i].fed % BLOCK as u128) as usize);
            shape.push(n.min(3 * BLOCK));
            inputs.push(d);
        }
        shape.truncate(7);
        cx.state(&shape);
        cx.ev("update_many calls");
        cx.evn("states batched", idx.len() as u64);
        cx.d(|| format!("update_many {:?}", idx.iter().zip(&inputs).map(|(i, d)| (*i, d.len())).collect::<Vec<_>>()));
        {
            let mut slots: Vec<Option<&mut Pair>> = pool.iter_mut().map(Some).collect();
            let mut sel: Vec<&mut Pair> = vec![];
            for i in &idx {
                sel.push(slots[*i].take().unwrap());
            }
            fn st(x: &mut L) -> &mut lib::State {
                match x {
                    L::S(x) => x,
                    _ => unreachable!(),
                }
            }
            match s.below(4) {
                3 => {
                    cx.ev("iterators with more behind their end");
                    let taken = std::cell::Cell::new(false);
                    let mut spare = lib::State::new();
                    let behind: &'static [u8] = b"behind the end";
                    update_many(Unfused { it: sel.iter_mut().map(|x| st(&mut x.l)).zip(inputs.iter()), more: Some((&mut spare, &behind)), ended: false, taken: &taken });
                    if taken.get() {
                        return Err("update_many took a pair after the iterator had ended".into());
                    }
                }
                0 => update_many(sel.iter_mut().map(|x| st(&mut x.l)).zip(inputs.iter())),
                1 => {
                    let owned: Vec<Vec<u8>> = inputs.iter().map(|d| d.to_vec()).collect();
                    update_many(sel.iter_mut().map(|x| st(&mut x.l)).zip(owned.iter()))
                }
                _ => {
                    let pairs: Vec<(&mut lib::State, &[u8])> =
                        sel.iter_mut().map(|x| st(&mut x.l)).zip(inputs.iter().copied()).collect();
                    update_many(pairs)
                }
            }
            for (x, d) in sel.iter_mut().zip(&inputs) {
                x.model(d);
            }
        }
        for (i, x) in pool.iter_mut().enumerate() {
            match s.below(8) {
                0..=3 => {
                    x.check_count(cx, "count after the batch")?;
                    x.check(cx, &format!("digest of #{} after the batch", i))?;
                }
                4 => {
                    let n = s.below(2 * BLOCK + 2);
                    let d = s.data(n);
                    let d = cx.input(&d, s);
                    cx.ev("single updates between batches");
                    cx.d(|| format!("#{} single update {}", i, n));
                    cx.note(n);
                    x.feed(d, 0)?;
                }
                5 => {
                    let f = s.flip();
                    if let (L::S(l), M::S(m)) = (&mut x.l, &mut x.m) {
                        cx.d(|| format!("#{} set_last_node({})", i, f));
                        l.set_last_node(f);
                        m.last_node = f;
                    }
                }
                _ => {}
            }
        }
    }
    for (i, x) in pool.iter().enumerate() {
        x.check_count(cx, "final count")?;
        x.check(cx, &format!("final digest of #{}", i))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C10: parameters

fn bad_len(s: &mut Src, max: usize) -> usize {
    match s.below(7) {
        0 => max + 1,
        1 => max + 1 + s.below(300),
        2 => 255 + s.below(3),
        3 => 256 + s.below(max + 1),
        4 => 65536 + s.below(max + 1),
        5 => 512 + s.below(max + 1),
        _ => max + 1 + s.below(5),
    }
}
fn bad_scalar(s: &mut Src, max: usize) -> usize {
    match s.below(5) {
        0 => ((1u64 << 32) as usize).wrapping_add(s.below(max + 1)).wrapping_add(if cfg!(target_pointer_width = "64") { 0 } else { 1 << 31 }),
        1 => usize::MAX - s.below(3),
        2 => (1usize << (usize::BITS - 1)) | s.below(max + 1),
        _ => bad_len(s, max),
    }
}

fn c10(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 4) {
        return c10_par(s, cx);
    }
    let mut l = if s.flip() { lib::Params::new() } else { lib::Params::default() };
    let mut p = m::P::default();
    let nops = s.range(1, 14);
    let mut accepted = 0;
    for _ in 0..nops {
        let op = s.below(16);
        cx.note(op);
        let bad = s.chance(1, 6);
        if bad {
            // a rejected value: the call must panic (on a copy; what it leaves behind is unspecified)
            let mut c = l.clone();
            let (what, v): (&'static str, usize) = match s.below(6) {
                0 => ("hash_length", if s.chance(1, 4) { 0 } else { bad_scalar(s, OUT) }),
                1 => ("key", bad_len(s, KEY)),
                2 => ("salt", bad_len(s, SALT)),
                3 => ("personal", bad_len(s, SALT)),
                4 => ("inner_hash_length", bad_scalar(s, OUT)),
                _ if OFF_BITS < 64 => ("node_offset", 0),
                _ => ("hash_length", bad_scalar(s, OUT)),
            };
            let mut off = 0u64;
            if what == "node_offset" {
                off = match s.below(4) {
                    0 => 1u64 << OFF_BITS.min(63),
                    1 => u64::MAX,
                    2 => (1u64 << s.range(48, 63)) | (s.u64() & 0xffff_ffff_ffff),
                    _ => s.u64() | 1u64 << s.range(48, 63),
                };
            }
            let data = if what == "key" || what == "salt" || what == "personal" { s.data(v) } else { vec![] };
            cx.ev("illegal values tried");
            cx.state(&[10, 1, what.len(), v.min(1000)]);
            cx.d(|| format!("illegal {} {} {}", what, v, off));
            let refused = panics(|| {
                match what {
                    "hash_length" => c.hash_length(v),
                    "key" => c.key(&data),
                    "salt" => c.salt(&data),
                    "personal" => c.personal(&data),
                    "inner_hash_length" => c.inner_hash_length(v),
                    _ => c.node_offset(off as OffT),
                };
            });
            if !refused {
                return Err(format!("{} accepted the illegal value {}", what, if what == "node_offset" { off.to_string() } else { v.to_string() }));
            }
            continue;
        }
        accepted += 1;
        cx.ev("legal values set");
        cx.state(&[10, 2, op]);
        match op {
            0 | 1 => {
                let v = gen_hash_len(s);
                cx.d(|| format!("hash_length({})", v));
                cx.note(v);
                l.hash_length(v);
                p.hash_length = v;
            }
            2..=4 => {
                let n = gen_key_len(s);
                let k = s.data(n);
                cx.d(|| format!("key({})", hex(&k)));
                cx.note(n);
                l.key(&k);
                p.key = k;
            }
            5 | 6 => {
                let n = s.range(0, SALT);
                let k = s.data(n);
                cx.d(|| format!("salt({})", hex(&k)));
                cx.note(n);
                l.salt(&k);
                p.salt = k;
            }
            7 | 8 => {
                let n = s.range(0, SALT);
                let k = s.data(n);
                cx.d(|| format!("personal({})", hex(&k)));
                cx.note(n);
                l.personal(&k);
                p.personal = k;
            }
            9 => {
                p.fanout = gen_u8(s);
                cx.d(|| format!("fanout({})", p.fanout));
                cx.note(p.fanout as usize);
                l.fanout(p.fanout);
            }
            10 => {
                p.max_depth = gen_u8(s);
                cx.d(|| format!("max_depth({})", p.max_depth));
                cx.note(p.max_depth as usize);
                l.max_depth(p.max_depth);
            }
            11 => {
                p.max_leaf_length = gen_bits(s, 32) as u32;
                cx.d(|| format!("max_leaf_length({})", p.max_leaf_length));
                cx.note(p.max_leaf_length as usize);
                l.max_leaf_length(p.max_leaf_length);
            }
            12 => {
                p.node_offset = gen_bits(s, OFF_BITS);
                cx.d(|| format!("node_offset({})", p.node_offset));
                cx.note(p.node_offset as usize);
                l.node_offset(p.node_offset as OffT);
            }
            13 => {
                p.node_depth = gen_u8(s);
                cx.d(|| format!("node_depth({})", p.node_depth));
                cx.note(p.node_depth as usize);
                l.node_depth(p.node_depth);
            }
            14 => {
                p.inner_hash_length = s.range(0, OUT);
                cx.d(|| format!("inner_hash_length({})", p.inner_hash_length));
                cx.note(p.inner_hash_length);
                l.inner_hash_length(p.inner_hash_length);
            }
            _ => {
                p.last_node = s.flip();
                cx.d(|| format!("last_node({})", p.last_node));
                l.last_node(p.last_node);
            }
        }
        if s.chance(1, 8) {
            if s.flip() {
                l = l.clone();
            } else {
                // over a builder that has values of its own
                let (mut o, _) = gen_params(s);
                o.clone_from(&l);
                l = o;
            }
        }
        if s.chance(1, 8) {
            // using a builder must not change it
            use_builder(&l, &p, s, cx)?;
        }
    }
    cx.nontrivial = accepted > 0;
    use_builder(&l, &p, s, cx)?;
    // the same values in one go on a fresh builder
    let mut f = lib::Params::new();
    build(&mut f, &p);
    use_builder(&f, &p, s, cx)
}

fn use_builder(l: &lib::Params, p: &m::P, s: &mut Src, cx: &mut Cx) -> R {
    let n = { let t_ = [0, 1, BLOCK, s.below(3 * BLOCK)]; s.pick(&t_) };
    let d = s.data(n);
    cx.d(|| format!("hash {} bytes with {}", n, pdesc(p)));
    cx.ev("builders used");
    match s.below(4) {
        0 => cx.eq("Params::hash", l.hash(&d).as_bytes(), || m::hash(p, &d))?,
        1 => cx.eq("Params::to_state", l.to_state().update(&d).finalize().as_bytes(), || m::hash(p, &d))?,
        2 => {
            let mut j = HashManyJob::new(l, &d);
            hash_many(std::iter::once(&mut j));
            cx.eq("HashManyJob::new", j.to_hash().as_bytes(), || m::hash(p, &d))?
        }
        _ => {
            let mut st = l.to_state();
            st.update(&d);
            cx.eq("Params::to_state", st.finalize().as_bytes(), || m::hash(p, &d))?;
            cx.eq("Params::hash", l.hash(&d).as_bytes(), || m::hash(p, &d))?
        }
    }
    Ok(())
}

fn c10_par(s: &mut Src, cx: &mut Cx) -> R {
    let mut l = if s.flip() { par::Params::new() } else { par::Params::default() };
    let mut p = m::P::default();
    for _ in 0..s.range(1, 6) {
        if s.chance(1, 4) {
            let mut c = l.clone();
            let key = s.flip();
            let v = if key { bad_len(s, KEY) } else if s.chance(1, 4) { 0 } else { bad_scalar(s, OUT) };
            let data = if key { s.data(v) } else { vec![] };
            cx.ev("illegal values tried");
            cx.state(&[10, 3, key as usize, v.min(1000)]);
            cx.note(v);
            cx.d(|| format!("{} illegal {} {}", PNAME, if key { "key" } else { "hash_length" }, v));
            if !panics(|| {
                if key {
                    c.key(&data);
                } else {
                    c.hash_length(v);
                }
            }) {
                return Err(format!("{} {} accepted the illegal value {}", PNAME, if key { "key" } else { "hash_length" }, v));
            }
        } else if s.flip() {
            p.hash_length = gen_hash_len(s);
            l.hash_length(p.hash_length);
            cx.ev("legal values set");
            cx.note(p.hash_length);
            cx.d(|| format!("{} hash_length({})", PNAME, p.hash_length));
        } else {
            let n = gen_key_len(s);
            p.key = s.data(n);
            l.key(&p.key);
            cx.ev("legal values set");
            cx.note(n);
            cx.d(|| format!("{} key({})", PNAME, hex(&p.key)));
        }
        if s.chance(1, 8) {
            if s.flip() {
                l = l.clone();
            } else {
                let (mut o, _) = gen_par_params(s);
                o.clone_from(&l);
                l = o;
            }
        }
        if s.flip() {
            let n = { let t_ = [0, 1, STRIPE, s.below(3 * STRIPE)]; s.pick(&t_) };
            let d = s.data(n);
            cx.ev("builders used");
            if s.flip() {
                cx.eq("par Params::hash", l.hash(&d).as_bytes(), || m::par_hash(p.hash_length, &p.key, &d))?;
            } else {
                cx.eq("par Params::to_state", l.to_state().update(&d).finalize().as_bytes(), || m::par_hash(p.hash_length, &p.key, &d))?;
            }
        }
    }
    cx.nontrivial = true;
    let n_ = s.pick(&[0, 1, STRIPE, 1000]); let d = s.data(n_);
    cx.eq("par Params::hash", l.hash(&d).as_bytes(), || m::par_hash(p.hash_length, &p.key, &d))
}

// ---------------------------------------------------------------- C11: hash values

fn hexspec(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        for n in [x / 16, x % 16] {
            o.push(char::from_digit(n as u32, 16).unwrap());
        }
    }
    o
}
/// every accessor of one hash value against its known bytes
fn c11_view(h: &lib::Hash, want: &[u8], cx: &mut Cx) -> R {
    cx.ev("hash values inspected");
    cx.eq("as_bytes", h.as_bytes(), || want.to_vec())?;
    let r: &[u8] = h.as_ref();
    cx.eq("as_ref", r, || want.to_vec())?;
    if want.len() == OUT {
        cx.eq("as_array", &h.as_array()[..], || want.to_vec())?;
        let back = lib::Hash::from(*h.as_array());
        if back != *h || back.as_bytes() != want {
            return Err("array round trip lost something".into());
        }
        let back = lib::Hash::from(h.as_array());
        if back != *h || back.as_bytes() != want {
            return Err("array reference round trip lost something".into());
        }
    }
    let x = h.to_hex();
    let hx = hexspec(want);
    cx.saw(x.as_bytes());
    if x.as_str() != hx || &*x != hx || x.len() != 2 * want.len() {
        return Err(format!("to_hex gave {} for {}", x, hx));
    }
    let want_dbg = format!("Hash(0x{})", hx);
    if format!("{:?}", h) != want_dbg {
        return Err(format!("Debug gave {:?} for {}", h, hx));
    }
    let c = *h;
    if !(c == *h) || c != *h || *h != c.clone() {
        return Err("a hash is unequal to its own copy".into());
    }
    if !(*h == *want) || *h != *want {
        return Err("a hash is unequal to its own bytes".into());
    }
    Ok(())
}
fn c11_pair(a: &lib::Hash, b: &lib::Hash, cx: &mut Cx) -> R {
    cx.ev("pairs compared");
    let same = a.as_bytes() == b.as_bytes();
    if (a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same {
        return Err(format!("{} and {}: equality of the hashes is {}, of the bytes {}", hex(a.as_bytes()), hex(b.as_bytes()), a == b, same));
    }
    if (*a == *b.as_bytes()) != same || (*a != *b.as_bytes()) == same || (*b == *a.as_bytes()) != same {
        return Err(format!("{} against the bytes {}: wrong answer", hex(a.as_bytes()), hex(b.as_bytes())));
    }
    Ok(())
}
fn c11_slice(a: &lib::Hash, v: &[u8], cx: &mut Cx) -> R {
    cx.ev("slices compared");
    let same = a.as_bytes() == v;
    if (*a == *v) != same || (*a != *v) == same {
        return Err(format!("{} against the bytes {}: wrong answer", hex(a.as_bytes()), hex(v)));
    }
    Ok(())
}
fn c11(s: &mut Src, cx: &mut Cx) -> R {
    let mut hs: Vec<lib::Hash> = vec![];
    for _ in 0..s.range(2, 4) {
        let h = match s.below(4) {
            0 => {
                let d = s.data(OUT);
                let a: [u8; OUT] = d[..].try_into().unwrap();
                note_data(cx, &d);
                let h = if s.flip() { lib::Hash::from(a) } else { lib::Hash::from(&a) };
                c11_view(&h, &d, cx)?;
                h
            }
            1 => {
                let n = gen_hash_len(s);
                let d = { let n_ = s.below(200); s.data(n_) };
                note_data(cx, &d);
                let h = par::Params::new().hash_length(n).hash(&d);
                let w = if crate::oracle_off() { h.as_bytes().to_vec() } else { m::par_hash(n, &[], &d) };
                c11_view(&h, &w, cx)?;
                h
            }
            _ => {
                let n = if s.flip() { s.range(1, 3) } else { gen_hash_len(s) };
                let d = { let n_ = s.below(300); s.data(n_) };
                note_data(cx, &d);
                cx.note(n);
                let mut j;
                let mut p = lib::Params::new();
                p.hash_length(n);
                let h = match s.below(3) {
                    0 => p.hash(&d),
                    1 => p.to_state().update(&d).finalize(),
                    _ => {
                        j = HashManyJob::new(&p, &d);
                        hash_many(std::iter::once(&mut j));
                        j.to_hash()
                    }
                };
                let w = if crate::oracle_off() { h.as_bytes().to_vec() } else { m::hash(&m::P { hash_length: n, ..m::P::default() }, &d) };
                c11_view(&h, &w, cx)?;
                h
            }
        };
        cx.d(|| format!("hash {:?}", h));
        hs.push(h);
    }
    // near-equal partners: full-length ones by flipping bits
    if let Some(h) = hs.iter().find(|h| h.as_bytes().len() == OUT).copied() {
        let mut a = *h.as_array();
        let k = s.range(1, 2);
        for _ in 0..k {
            a[s.below(OUT)] ^= 1 << s.below(8);
        }
        hs.push(lib::Hash::from(a));
        let mut a = *h.as_array();
        let (i, j) = (s.below(OUT), s.below(OUT));
        a.swap(i, j);
        hs.push(lib::Hash::from(a));
    }
    cx.nontrivial = true;
    for a in &hs {
        for b in &hs {
            c11_pair(a, b, cx)?;
        }
        let w = a.as_bytes().to_vec();
        for _ in 0..6 {
            let mut v = w.clone();
            match s.below(6) {
                0 => {
                    let i = s.below(v.len());
                    v[i] ^= 1 << s.below(8);
                }
                1 => {
                    let n = s.below(v.len() + 1);
                    v.truncate(n);
                }
                2 => {
                    let n = s.below(3);
                    v.extend(std::iter::repeat(0).take(n));
                }
                3 => {
                    let n = w.len();
                    for _ in 0..s.below(5) {
                        let w2 = v[..n].to_vec();
                        v.extend(w2);
                    }
                }
                4 => {
                    // every difference cancels under xor and under sum
                    let (i, j) = (s.below(v.len()), s.below(v.len()));
                    let t = 1u8 << s.below(8);
                    v[i] ^= t;
                    v[j] ^= t;
                }
                _ => {
                    let n = s.pick(&[256usize, 65536]);
                    v.resize(v.len() + n, 0);
                }
            }
            c11_slice(a, &v, cx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13: Debug secrecy

fn dbg_all<T: std::fmt::Debug>(t: &T) -> Vec<String> {
    vec![
        format!("{:?}", t),
        format!("{:#?}", t),
        format!("{:x?}", t),
        format!("{:#X?}", t),
        format!("{:200?}", t),
        format!("{:.3?}", t),
        format!("{:?}", Some(t)),
    ]
}
fn same_dbg<T: std::fmt::Debug>(a: &T, b: &T, cx: &mut Cx, what: &str) -> R {
    cx.ev("debug texts compared");
    let (x, y) = (dbg_all(a), dbg_all(b));
    for (i, (x, y)) in x.iter().zip(&y).enumerate() {
        if x.is_empty() {
            return Err(format!("{}: empty Debug text", what));
        }
        if x != y {
            return Err(format!("{} (style {}): Debug text depends on secret bytes: `{}` vs `{}`", what, i, x, y));
        }
    }
    Ok(())
}
/// two copies of one history, differing only in the bytes of keys and messages
fn c13(s: &mut Src, cx: &mut Cx) -> R {
    fn secret(s: &mut Src, n: usize) -> (Vec<u8>, Vec<u8>) {
        let a = s.data(n);
        let b = match s.below(4) {
            0 => s.data(n),
            1 => a.iter().map(|x| !x).collect(),
            2 => {
                let mut b = a.clone();
                if n > 0 {
                    let i = s.below(n);
                    b[i] ^= 1 << s.below(8);
                }
                b
            }
            _ => vec![0; n],
        };
        (a, b)
    }
    cx.nontrivial = true;
    let kl = if s.chance(1, 3) { 0 } else { s.range(1, KEY) };
    let (ka, kb) = secret(s, kl);
    for x in ka.iter().chain(&kb) {
        cx.note(*x as usize);
    }
    cx.note(kl);
    if s.chance(1, 3) {
        let (mut pa, mut pb) = (par::Params::new(), par::Params::new());
        let n = gen_hash_len(s);
        pa.hash_length(n).key(&ka);
        pb.hash_length(n).key(&kb);
        same_dbg(&pa, &pb, cx, "parallel Params")?;
        let (mut a, mut b) = (pa.to_state(), pb.to_state());
        same_dbg(&a, &b, cx, "parallel State")?;
        for _ in 0..s.range(1, 5) {
            let n = gen_len(s, STRIPE, 6 * STRIPE);
            let (da, db) = secret(s, n);
            cx.note(n);
            a.update(&da);
            b.update(&db);
            cx.state(&[13, 1, a.count() as usize % (2 * STRIPE)]);
            same_dbg(&a, &b, cx, "parallel State after update")?;
            if s.chance(1, 4) {
                a.finalize();
                b.finalize();
                same_dbg(&a.clone(), &b.clone(), cx, "clone of a parallel State after finalize")?;
            }
        }
        return Ok(());
    }
    let (_, pub_p) = gen_params(s);
    note_params(cx, &pub_p);
    let (mut pa, mut pb) = (lib::Params::new(), lib::Params::new());
    build(&mut pa, &m::P { key: ka.clone(), ..pub_p.clone() });
    build(&mut pb, &m::P { key: kb.clone(), ..pub_p.clone() });
    cx.d(|| format!("{} keys {} / {}", pdesc(&pub_p), hex(&ka), hex(&kb)));
    same_dbg(&pa, &pb, cx, "Params")?;
    if s.flip() {
        let (mut a, mut b) = (pa.to_state(), pb.to_state());
        same_dbg(&a, &b, cx, "State")?;
        for _ in 0..s.range(1, 5) {
            let n = gen_len(s, BLOCK, 6 * BLOCK);
            let (da, db) = secret(s, n);
            cx.note(n);
            if s.flip() {
                a.update(&da);
                b.update(&db);
            } else {
                update_many(std::iter::once((&mut a, &da)));
                update_many(std::iter::once((&mut b, &db)));
            }
            cx.state(&[13, 2, a.count() as usize % BLOCK]);
            same_dbg(&a, &b, cx, "State after update")?;
            if s.chance(1, 4) {
                let f = s.flip();
                a.set_last_node(f);
                b.set_last_node(f);
                a.finalize();
                b.finalize();
                same_dbg(&a.clone(), &b.clone(), cx, "clone of a State after finalize")?;
            }
        }
    } else {
        let n = gen_len(s, BLOCK, 6 * BLOCK);
        let (da, db) = secret(s, n);
        let (da, db) = (cx.input(&da, s), cx.input(&db, s));
        cx.note(n);
        cx.state(&[13, 3, n.min(3 * BLOCK)]);
        let (mut a, mut b) = (HashManyJob::new(&pa, da), HashManyJob::new(&pb, db));
        same_dbg(&a, &b, cx, "HashManyJob")?;
        let (mut fill_a, mut fill_b) = (HashManyJob::new(&pa, da), HashManyJob::new(&pb, db));
        hash_many([&mut a, &mut fill_a]);
        hash_many([&mut b, &mut fill_b]);
        same_dbg(&a, &b, cx, "HashManyJob after hash_many")?;
        same_dbg(&a.clone(), &b.clone(), cx, "clone of a finished HashManyJob")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18: no heap

fn quiet<T>(what: &str, cx: &mut Cx, f: impl FnOnce() -> T) -> Result<T, String> {
    cx.ev("operations under the allocation counter");
    let a = crate::alloc::events();
    let r = f();
    let n = crate::alloc::events() - a;
    if n != 0 {
        return Err(format!("{} {}: {} heap events", NAME, what, n));
    }
    Ok(r)
}
fn c18(s: &mut Src, cx: &mut Cx) -> R {
    let (l, p) = gen_params(s);
    let (pl, pp) = gen_par_params(s);
    let unit = if s.flip() { BLOCK } else { STRIPE };
    let n = gen_len(s, unit, cx.max_len);
    let d = s.data(n);
    let d = cx.input(&d, s);
    note_params(cx, &p);
    note_data(cx, d);
    cx.nontrivial = n > 0;
    cx.d(|| format!("{} / {} len={}", pdesc(&p), pdesc(&pp), n));
    cx.state(&[18, n.min(40 * BLOCK), p.key.len().min(1)]);
    let k = s.below(n + 1);
    match s.below(5) {
        0 => {
            let h = quiet("building params and hashing", cx, || {
                let mut x = lib::Params::new();
                build(&mut x, &p);
                let y = x.clone();
                y.hash(d)
            })?;
            let t = quiet("comparing and hex", cx, || (h == *d, h.to_hex().len(), h.as_ref().len()))?;
            let _ = t;
            quiet("parallel hash", cx, || pl.clone().hash(d))?;
            quiet("default hash", cx, || (oneshot(d), par_oneshot(d)))?;
        }
        1 => {
            let mut st = quiet("to_state", cx, || l.to_state())?;
            let step = s.pick(&[1, 7, BLOCK, BLOCK + 1, 1000]).max(n / 300 + 1);
            quiet("many updates", cx, || {
                for c in d.chunks(step) {
                    st.update(c);
                }
                st.set_last_node(true);
            })?;
            quiet("finalize, clone, count", cx, || {
                let c = st.clone();
                (c.finalize(), st.count())
            })?;
            let mut st = quiet("parallel to_state", cx, || pl.to_state())?;
            quiet("many parallel updates", cx, || {
                for c in d.chunks(step) {
                    st.update(c);
                }
                (st.clone().finalize(), st.count())
            })?;
            #[cfg(feature = "std")]
            {
                use std::io::Write;
                let mut st = l.to_state();
                quiet("Write", cx, || {
                    let _ = st.write(&d[..k]);
                    let _ = st.write_all(&d[k..]);
                    let _ = st.flush();
                })?;
            }
        }
        2 => {
            // up to 300 jobs over windows of one buffer
            let njobs = batch_size(s);
            let lens: Vec<usize> = batch_lens(s, njobs, n).into_iter().map(|x| x.min(n)).collect();
            let mut jobs: Vec<HashManyJob> = Vec::with_capacity(njobs);
            quiet("HashManyJob::new", cx, || {
                for x in &lens {
                    jobs.push(HashManyJob::new(&l, &d[..*x]));
                }
            })?;
            cx.evn("jobs batched", njobs as u64);
            quiet("hash_many", cx, || hash_many(jobs.iter_mut()))?;
            quiet("to_hash", cx, || jobs.iter().map(|j| j.to_hash().as_bytes().len()).sum::<usize>())?;
        }
        3 => {
            let nst = batch_size(s);
            let lens: Vec<usize> = batch_lens(s, nst, n).into_iter().map(|x| x.min(n)).collect();
            let mut sts: Vec<lib::State> = (0..nst).map(|_| l.to_state()).collect();
            let ins: Vec<&[u8]> = lens.iter().map(|x| &d[..*x]).collect();
            cx.evn("states batched", nst as u64);
            for _ in 0..3 {
                quiet("update_many", cx, || update_many(sts.iter_mut().zip(ins.iter())))?;
            }
            quiet("finalize", cx, || sts.iter().map(|j| j.finalize().as_bytes().len()).sum::<usize>())?;
        }
        _ => {
            struct Nul;
            impl std::fmt::Write for Nul {
                fn write_str(&mut self, _: &str) -> std::fmt::Result {
                    Ok(())
                }
            }
            use std::fmt::Write;
            let mut w = Nul;
            let st = l.to_state();
            let ps = pl.to_state();
            let j = HashManyJob::new(&l, d);
            let h = l.hash(d);
            quiet("Debug formatting", cx, || {
                let _ = write!(w, "{:?}{:?}{:?}{:?}{:?}{:?}", st, ps, j, h, l, pl);
            })?;
            quiet("Hash conversions", cx, || (lib::Hash::from([7u8; OUT]), lib::Hash::from(&[7u8; OUT])))?;
            quiet("degree", cx, || lib::many::degree())?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09: objects near guard pages

fn c09(s: &mut Src, cx: &mut Cx) -> R {
    let r = c09_inner(s, cx);
    cx.inputs_untouched()?;
    let _ = r; // wrong results are other properties' business
    Ok(())
}
fn c09_inner(s: &mut Src, cx: &mut Cx) -> R {
    match s.below(11) {
        0 => c01(s, cx),
        1 => c02(s, cx),
        2 => c03(s, cx),
        3 => c04(s, cx),
        4 => c05(s, cx),
        5 => c06(s, cx),
        6 => c11(s, cx),
        7 => hostile(s, cx, 6 * BLOCK, None),
        _ => {
            // objects placed flush against inaccessible pages
            cx.nontrivial = true;
            let (l, p) = gen_params(s);
            let (pl, _) = gen_par_params(s);
            note_params(cx, &p);
            let l = cx.object(l, s);
            let pl = cx.object(pl, s);
            let st = cx.object(l.to_state(), s);
            let ps = cx.object(pl.to_state(), s);
            cx.ev("objects at guard pages");
            for _ in 0..s.range(1, 5) {
                let n = gen_len(s, BLOCK, 12 * BLOCK);
                let d = s.data(n);
                let d = cx.input(&d, s);
                note_data(cx, d);
                cx.state(&[9, d.as_ptr() as usize % 64, n.min(3 * BLOCK)]);
                st.update(d);
                ps.update(d);
                let h = cx.object(st.finalize(), s);
                let h2 = cx.object(ps.finalize(), s);
                let _ = (*h == *h2, *h == *d, h.to_hex().len());
                let _ = (l.hash(d), pl.hash(d));
                let _ = (st.count(), ps.count());
            }
            let n = s.range(1, MAX_DEG + 2);
            let lens = batch_lens(s, n, 2000);
            let mut jobs: Vec<&'static mut HashManyJob<'static>> = vec![];
            let mut sts: Vec<(&'static mut lib::State, &'static [u8])> = vec![];
            for n in lens {
                let d = s.data(n);
                let d = cx.input(&d, s);
                note_data(cx, d);
                jobs.push(cx.object(HashManyJob::new(l, d), s));
                let x = cx.object(l.to_state(), s);
                x.update(&d[..s.below(d.len() + 1)]);
                sts.push((x, d));
            }
            hash_many(jobs.iter_mut().map(|j| &mut **j));
            update_many(sts.iter_mut().map(|(a, b)| (&mut **a, &**b)));
            for j in &jobs {
                let _ = j.to_hash();
            }
            for (x, _) in &sts {
                let _ = x.finalize();
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C09: callers' code inside a batch

/// Hands out different slices from call to call, and may panic.
struct Fickle {
    a: &'static [u8],
    b: &'static [u8],
    calls: std::cell::Cell<usize>,
    panic_at: usize,
}
impl AsRef<[u8]> for Fickle {
    fn as_ref(&self) -> &[u8] {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.panic_at {
            panic!("the caller's as_ref");
        }
        if n % 2 == 0 {
            self.a
        } else {
            self.b
        }
    }
}
/// Lies about its size, panics in the middle, or hashes another batch before it answers.
struct Unruly<I, F: FnMut()> {
    inner: I,
    n: usize,
    panic_at: usize,
    hint: usize,
    before: F,
}
impl<I: Iterator, F: FnMut()> Iterator for Unruly<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n == self.panic_at {
            self.n += 1;
            panic!("the caller's iterator");
        }
        self.n += 1;
        (self.before)();
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => (0, Some(0)),
            2 => (usize::MAX, Some(usize::MAX)),
            3 => (self.n + 100, Some(1)),
            4 => (1, Some(1)),
            _ => self.inner.size_hint(),
        }
    }
}
fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    crate::run::QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::run::QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| ())
}
/// Whatever the caller's iterator or AsRef does, nothing is read or written out of bounds, objects not in the batch
/// are untouched, and those in it can still be used and dropped. Batches nested in an iterator are right.
fn hostile(s: &mut Src, cx: &mut Cx, maxl: usize, upd: Option<bool>) -> R {
    cx.nontrivial = true;
    let n = s.range(1, MAX_DEG + 4);
    let upd = upd.unwrap_or_else(|| s.flip());
    let p = m::P { key: if s.flip() { vec![7; KEY] } else { vec![] }, ..Default::default() };
    let mut l = lib::Params::new();
    build(&mut l, &p);
    let mut ins: Vec<(&'static [u8], &'static [u8])> = vec![];
    for _ in 0..n {
        let (a, b) = (gen_len(s, BLOCK, maxl), gen_len(s, BLOCK, maxl));
        let (a, b) = (s.data(a), s.data(b));
        ins.push((cx.input(&a, s), cx.input(&b, s)));
        note_data(cx, ins[ins.len() - 1].0);
    }
    let calm = s.chance(1, 3); // the iterator neither lies nor panics, so results count
    let panic_at = if calm || s.flip() { usize::MAX } else { s.below(n + 1) };
    let fickle = !calm && s.flip();
    let asref_panic = if calm || s.flip() { usize::MAX } else { s.below(2) };
    let hint = if calm { 9 } else { s.below(6) };
    cx.note(n ^ hint << 8 ^ (panic_at & 0xff) << 16 ^ (upd as usize) << 24 ^ (fickle as usize) << 25);
    cx.d(|| format!("{} of {} under an iterator of hint {} panicking at {} nested {} alternating {}", if upd { "update_many" } else { "hash_many" }, n, hint, panic_at, calm, fickle));
    let mut stander = lib::State::new();
    stander.update(ins[0].1);
    let inner_in: Vec<&'static [u8]> = ins.iter().map(|x| x.1).collect();
    let mut nested_ok = true;
    let mut nested = 0u64;
    let mut every = s.range(1, 3);
    let nest = |l: &lib::Params, ok: &mut bool, k: &mut u64| {
        every += 1;
        if !calm || every % 3 != 0 {
            return;
        }
        *k += 1;
        let mut jobs: Vec<_> = inner_in.iter().map(|d| HashManyJob::new(l, d)).collect();
        hash_many(jobs.iter_mut());
        let mut st: Vec<_> = inner_in.iter().map(|_| l.to_state()).collect();
        update_many(st.iter_mut().zip(inner_in.iter()));
        for ((j, t), d) in jobs.iter().zip(&st).zip(&inner_in) {
            if !crate::oracle_off() {
                let want = m::hash(&p, d);
                *ok &= j.to_hash().as_bytes() == &want[..] && t.finalize().as_bytes() == &want[..];
            }
        }
    };
    if upd {
        let mut sts: Vec<lib::State> = ins.iter().map(|x| {
            let mut t = l.to_state();
            t.update(&x.1[..x.1.len() / 3]);
            t
        }).collect();
        let srcs: Vec<Fickle> = ins.iter().map(|x| Fickle { a: x.0, b: if fickle { x.1 } else { x.0 }, calls: Default::default(), panic_at: asref_panic }).collect();
        let mut nest = nest;
        let r = quietly(|| {
            update_many(Unruly { inner: sts.iter_mut().zip(srcs.iter()), n: 0, panic_at, hint, before: || nest(&l, &mut nested_ok, &mut nested) });
        });
        cx.evn("batches ended by the caller's panic", r.is_err() as u64);
        for (i, t) in sts.iter_mut().enumerate() {
            if calm && !crate::oracle_off() {
                let mut h = m::H::new(&p);
                h.feed(&ins[i].1[..ins[i].1.len() / 3]);
                h.feed(ins[i].0);
                if t.finalize().as_bytes() != &h.digest()[..] {
                    return Err(format!("update_many while its iterator hashed other batches: hasher {} is wrong", i));
                }
            }
            let _ = quietly(|| {
                let _ = t.finalize();
                let _ = t.clone().update(ins[i].1).finalize();
                t.count()
            });
        }
        if s.flip() {
            let _ = quietly(|| update_many(sts.iter_mut().zip(inner_in.iter())));
        }
    } else {
        let mut jobs: Vec<_> = ins.iter().map(|x| HashManyJob::new(&l, x.0)).collect();
        let mut nest = nest;
        let r = quietly(|| {
            hash_many(Unruly { inner: jobs.iter_mut(), n: 0, panic_at, hint, before: || nest(&l, &mut nested_ok, &mut nested) });
        });
        cx.evn("batches ended by the caller's panic", r.is_err() as u64);
        for (i, j) in jobs.iter().enumerate() {
            if calm && !crate::oracle_off() && j.to_hash().as_bytes() != &m::hash(&p, ins[i].0)[..] {
                return Err(format!("hash_many while its iterator hashed other batches: job {} is wrong", i));
            }
            let _ = quietly(|| j.to_hash());
        }
        if s.flip() {
            let _ = quietly(|| hash_many(jobs.iter_mut()));
        }
    }
    cx.evn("batches nested in an iterator", nested);
    if !nested_ok {
        return Err("a batch hashed inside another batch's iterator is wrong".into());
    }
    if !crate::oracle_off() && stander.finalize().as_bytes() != &m::hash(&m::P::default(), ins[0].1)[..] {
        return Err("a hasher that took no part changed".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- C08: counters near a carry (guarded hook)

/// bytes already compressed: a little below (or at) a multiple of a power of two
#[cfg(blake2_simd_verif)]
fn gen_count(s: &mut Src, cx: &mut Cx, par: bool) -> u128 {
    let word = 8 * m::WB;
    // up to what the type of count() can hold, less 32 MiB a leaf for what is fed here
    let top = 8 * std::mem::size_of::<Cnt>() - if par { 3 } else { 0 };
    let all = u128::MAX >> (128 - top);
    let bit = match s.below(8) {
        0..=4 => word,
        5 => s.pick(&[31, 32, 33, 53, 63, 64, 65]),
        6 => top - 1,
        _ => s.range(8, top - 1),
    }
    .min(top - 1);
    let k = match s.below(4) {
        0 | 1 => 1u128,
        2 => s.range(1, 5) as u128,
        _ => (s.u64() as u128) << 64 | s.u64() as u128,
    };
    let j = if s.chance(1, 6) { s.below(40) } else { s.below(12) } as u128;
    let c = (k << bit).wrapping_sub(j * BLOCK as u128) & all;
    let c = if c > all - (1 << 25) { c - (1 << 25) } else { c };
    let c = c / BLOCK as u128 * BLOCK as u128;
    cx.state(&[8, bit, j as usize, k.min(6) as usize, par as usize]);
    c
}
#[cfg(blake2_simd_verif)]
fn c08_pair(s: &mut Src, cx: &mut Cx, parallel: bool) -> (Pair, u128) {
    let c = gen_count(s, cx, parallel);
    if parallel {
        let (l, p) = gen_par_params(s);
        cx.d(|| format!("{} {} leaf count {:#x}", PNAME, pdesc(&p), c));
        note_params(cx, &p);
        let mut l = l.to_state();
        l.verif_set_leaf_count(c as Cnt);
        (Pair { l: L::P(l), m: M::P(m::Par::with_t0(p.hash_length, &p.key, c)), fed: 0, keyed: !p.key.is_empty() }, c * m::PDEG as u128)
    } else {
        let (l, p) = gen_params(s);
        cx.d(|| format!("{} {} count {:#x}", NAME, pdesc(&p), c));
        note_params(cx, &p);
        let mut l = l.to_state();
        l.verif_set_count(c as Cnt);
        (Pair { l: L::S(l), m: M::S(m::H::with_t0(&p, c)), fed: 0, keyed: !p.key.is_empty() }, c)
    }
}
#[cfg(blake2_simd_verif)]
fn c08_check(x: &Pair, base: u128, cx: &mut Cx, what: &str) -> R {
    cx.ev("counts compared");
    let want = base + x.fed;
    if x.count() != want {
        return Err(format!("{}: count() is {:#x}, {} bytes after {:#x}", what, x.count(), x.fed, base));
    }
    x.check(cx, what)
}
#[cfg(blake2_simd_verif)]
fn c08(s: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    match s.below(4) {
        0 | 1 => {
            let parallel = s.flip();
            let (mut x, base) = c08_pair(s, cx, parallel);
            let unit = x.unit();
            for _ in 0..s.range(1, 8) {
                let n = gen_len(s, unit, 24 * unit);
                let d = s.data(n);
                let d = cx.input(&d, s);
                note_data(cx, d);
                cx.ev("updates");
                cx.d(|| format!("update {} bytes", n));
                x.feed(d, 0)?;
                if s.chance(1, 3) {
                    c08_check(&x, base, cx, "mid-stream")?;
                }
            }
            c08_check(&x, base, cx, "at the end")
        }
        2 => {
            let n = batch_size(s).min(60);
            let lens = batch_lens(s, n, 4000);
            let mut jobs = vec![];
            for len in lens {
                let (_, mut p) = gen_params(s);
                p.key.clear();
                let mut l = lib::Params::new();
                build(&mut l, &p);
                let d = s.data(len);
                let d = cx.input(&d, s);
                note_data(cx, d);
                let c = if s.chance(1, 4) { 0 } else { gen_count(s, cx, false) };
                cx.d(|| format!("job #{}: {} len={} count {:#x}", jobs.len(), pdesc(&p), len, c));
                let mut j = HashManyJob::new(&l, d);
                j.verif_set_count(c as Cnt);
                jobs.push((j, p, d, c));
            }
            cx.ev("hash_many calls");
            hash_many(jobs.iter_mut().map(|x| &mut x.0));
            for (i, (j, p, d, c)) in jobs.iter().enumerate() {
                cx.eq(&format!("job #{} ({} bytes after {:#x})", i, d.len(), c), j.to_hash().as_bytes(), || {
                    let mut h = m::H::with_t0(p, *c);
                    h.feed(d);
                    h.digest()
                })?;
            }
            Ok(())
        }
        _ => {
            let n = batch_size(s).min(40);
            let mut pool = vec![];
            for _ in 0..n {
                let (mut x, base) = c08_pair(s, cx, false);
                let k = s.below(2 * BLOCK + 1);
                let d = s.data(k);
                x.feed(&d, 0)?;
                pool.push((x, base));
            }
            for _ in 0..s.range(1, 3) {
                let lens = batch_lens(s, n, 2500);
                let ins: Vec<&'static [u8]> = lens
                    .iter()
                    .map(|k| {
                        let d = s.data(*k);
                        let d = cx.input(&d, s);
                        note_data(cx, d);
                        d
                    })
                    .collect();
                cx.ev("update_many calls");
                cx.d(|| format!("update_many {:?}", lens));
                update_many(pool.iter_mut().zip(ins.iter()).map(|((x, _), d)| match &mut x.l {
                    L::S(l) => (l, *d),
                    _ => unreachable!(),
                }));
                for ((x, _), d) in pool.iter_mut().zip(&ins) {
                    x.model(d);
                }
                for (i, (x, base)) in pool.iter().enumerate() {
                    if s.chance(1, 2) {
                        c08_check(x, *base, cx, &format!("#{} after the batch", i))?;
                    }
                }
            }
            for (i, (x, base)) in pool.iter().enumerate() {
                c08_check(x, *base, cx, &format!("#{} at the end", i))?;
            }
            Ok(())
        }
    }
}
#[cfg(not(blake2_simd_verif))]
fn c08(_: &mut Src, _: &mut Cx) -> R {
    Err("HARNESS-ERROR built without the hook".into())
}
/// The hook means what this harness thinks it means (small counts only: nothing carries).
#[cfg(blake2_simd_verif)]
pub fn hook_selftest() -> R {
    let d = [0x37u8; 5 * STRIPE + 3];
    for k in 0..4u128 {
        let c = k * BLOCK as u128;
        for keyed in [false, true] {
            for n in [0, 1, BLOCK, BLOCK + 1, 3 * BLOCK, STRIPE, STRIPE + 1, 3 * STRIPE, d.len()] {
                let key: &[u8] = if keyed { &[9; 5] } else { &[] };
                let mut x = lib::Params::new().key(key).to_state();
                x.verif_set_count(c as Cnt);
                x.update(&d[..n]);
                let mut h = m::H::with_t0(&m::P { key: key.to_vec(), ..Default::default() }, c);
                h.feed(&d[..n]);
                let mut px = par::Params::new().key(key).to_state();
                px.verif_set_leaf_count(c as Cnt);
                px.update(&d[..n]);
                let mut ph = m::Par::with_t0(OUT, key, c);
                ph.feed(&d[..n]);
                if x.finalize() != h.digest()[..] || x.count() as u128 != c + n as u128 {
                    return Err(format!("{} State::verif_set_count({}) then {} bytes", NAME, c, n));
                }
                if px.finalize() != ph.digest()[..] || px.count() as u128 != c * m::PDEG as u128 + n as u128 {
                    return Err(format!("{} State::verif_set_leaf_count({}) then {} bytes", PNAME, c, n));
                }
                if !keyed {
                    let p = lib::Params::new();
                    let mut j = HashManyJob::new(&p, &d[..n]);
                    j.verif_set_count(c as Cnt);
                    hash_many([&mut j]);
                    if j.to_hash() != h.digest()[..] {
                        return Err(format!("{} HashManyJob::verif_set_count({}) then {} bytes", NAME, c, n));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn case(prop: &str, s: &mut Src, cx: &mut Cx) -> R {
    match prop {
        "C01" => c01(s, cx),
        "C02" => c02(s, cx),
        "C03" => c03(s, cx),
        "C04" => c04(s, cx),
        "C05" => c05(s, cx),
        "C06" => c06(s, cx),
        "C07" => match s.below(8) {
            0 => c01(s, cx),
            1 => c02(s, cx),
            2 => c03(s, cx),
            3 => c04(s, cx),
            4 => c05(s, cx),
            5 => c06(s, cx),
            6 => c10(s, cx),
            _ => c11(s, cx),
        },
        "C08" => c08(s, cx),
        "C09" => c09(s, cx),
        "C10" => c10(s, cx),
        "C11" => c11(s, cx),
        "C13" => c13(s, cx),
        "C18" => c18(s, cx),
        _ => Err(format!("HARNESS-ERROR no such property {}", prop)),
    }
}

// ---------------------------------------------------------------- megabytes at a time

pub const BIG: usize = 128 << 20;
fn big_buf() -> &'static [u8] {
    static B: OnceLock<Vec<u8>> = OnceLock::new();
    B.get_or_init(|| {
        let mut x = 0xb16u64 + BLOCK as u64;
        let mut v = vec![0u8; BIG + 64];
        for c in v.chunks_mut(8) {
            c.copy_from_slice(&crate::src::splitmix(&mut x).to_le_bytes());
        }
        v
    })
}
/// lengths every run tries: whole MiB and powers of two, and their neighbours
fn big_grid(i: u64) -> Option<usize> {
    let i = i as usize;
    let base = match i / 3 {
        k @ 0..=7 => 1usize << (19 + k),
        k @ 8..=39 => (k - 7) << 20,
        k @ 40..=59 => (k - 39) * 1_000_000,
        _ => return None,
    };
    Some(base + i % 3 - 1)
}
/// 2^20..2^26, log-uniform, often at or next to a power of two, a whole number of MiB or of stripes
fn big_len(s: &mut Src, max: usize) -> usize {
    let n = match s.below(4) {
        0 => ((1usize << s.range(19, 26)) + s.below(5)).saturating_sub(2),
        1 => ((s.range(1, 64) << 20) + s.below(3)).saturating_sub(1),
        2 => (1usize << s.range(20, 25)) + (s.below(1 << 20) / STRIPE + 1) * STRIPE - s.below(3),
        _ => {
            let k = s.range(20, 25);
            (1usize << k) + s.below(1 << k)
        }
    };
    n.min(max)
}
pub fn big(prop: &str, i: u64, s: &mut Src, cx: &mut Cx) -> R {
    let max = cx.max_len.min(BIG);
    if i % 8 == 7 {
        return crowd(prop, i / 8, s, cx);
    }
    let grid = big_grid(i - i / 8);
    let buf = &big_buf()[s.below(64)..];
    cx.nontrivial = true;
    match prop {
        "C01" => {
            let (l, p) = gen_params(s);
            let d = &buf[..grid.unwrap_or_else(|| big_len(s, max)).min(max)];
            note_params(cx, &p);
            cx.note(d.len());
            cx.d(|| format!("{} {} len={}", NAME, pdesc(&p), d.len()));
            cx.eq("Params::hash", l.hash(d).as_bytes(), || m::hash(&p, d))
        }
        "C02" => {
            let (l, p) = gen_par_params(s);
            let d = &buf[..grid.unwrap_or_else(|| big_len(s, max)).min(max)];
            note_params(cx, &p);
            cx.note(d.len());
            cx.d(|| format!("{} {} len={}", PNAME, pdesc(&p), d.len()));
            cx.eq("Params::hash", l.hash(d).as_bytes(), || m::par_hash(p.hash_length, &p.key, d))
        }
        "C03" => {
            let parallel = s.flip();
            let mut x = Pair::gen(s, cx, parallel);
            let mut at = 0;
            for k in 0..s.range(1, 4) {
                let n = match s.below(4) {
                    _ if k == 0 && grid.is_some() => grid.unwrap(),
                    0 => s.below(3 * STRIPE),
                    _ => big_len(s, max),
                }.min(max - at);
                let how = s.below(5);
                cx.note(n << 3 | how);
                cx.d(|| format!("feed {} bytes via interface {}", n, how));
                cx.ev(if how == 0 { "updates" } else { "writes" });
                x.feed(&buf[at..at + n], how)?;
                at += n;
                if s.chance(1, 4) {
                    x.check(cx, "mid-stream digest")?;
                }
            }
            x.check_count(cx, "count")?;
            x.check(cx, "digest after all pieces")
        }
        "C04" => {
            // a short history with long updates in it
            let parallel = s.flip();
            let mut v = vec![Pair::gen(s, cx, parallel)];
            let mut first = grid;
            for _ in 0..s.range(2, 7) {
                let k = s.below(v.len());
                let op = s.below(8);
                cx.note(op << 4 | k);
                match op {
                    4 => v[k].check(cx, "finalize")?,
                    5 if v.len() < 4 => {
                        let c = v[k].clone();
                        v.push(c);
                        cx.ev("clones");
                    }
                    6 => {
                        let f = s.flip();
                        let x = &mut v[k];
                        if let (L::S(l), M::S(m)) = (&mut x.l, &mut x.m) {
                            l.set_last_node(f);
                            m.last_node = f;
                        }
                    }
                    _ => {
                        let n = if s.chance(1, 3) { s.below(2 * STRIPE) } else { first.take().unwrap_or_else(|| big_len(s, max / 4)) }.min(max);
                        cx.note(n);
                        cx.d(|| format!("#{} update {} bytes", k, n));
                        cx.ev("updates");
                        v[k].feed(&buf[..n], 0)?;
                        v[k].check_count(cx, "count")?;
                    }
                }
            }
            for x in &v {
                x.check_count(cx, "final count")?;
                x.check(cx, "final digest")?;
                x.check(cx, "second final digest")?;
            }
            Ok(())
        }
        "C05" => {
            let n = s.range(1, MAX_DEG + 3);
            let v: Vec<_> = (0..n).map(|k| {
                let (l, p) = gen_params(s);
                let len = if k == 0 && grid.is_some() { grid.unwrap() } else if s.chance(1, 3) { s.below(5 * BLOCK) } else { big_len(s, max / (3 * n)) };
                let o = s.below(BIG - len);
                (l, p, &big_buf()[o..o + len])
            }).collect();
            for (_, p, d) in &v {
                note_params(cx, p);
                cx.note(d.len());
                cx.d(|| format!("job: {} len={}", pdesc(p), d.len()));
            }
            let mut jobs: Vec<HashManyJob> = v.iter().map(|(l, _, d)| HashManyJob::new(l, d)).collect();
            cx.evn("jobs", n as u64);
            hash_many(jobs.iter_mut());
            for (j, (_, p, d)) in jobs.iter().zip(&v) {
                cx.eq("job", j.to_hash().as_bytes(), || m::hash(p, d))?;
            }
            Ok(())
        }
        "C06" => {
            let n = s.range(1, MAX_DEG + 3);
            let mut v: Vec<(Pair, &[u8])> = (0..n).map(|k| {
                let mut x = Pair::gen(s, cx, false);
                let pre = if s.flip() { s.below(2 * BLOCK + 1) } else { 0 };
                let _ = x.feed(&big_buf()[..pre], 0);
                let len = if k == 0 && grid.is_some() { grid.unwrap() } else if s.chance(1, 3) { s.below(5 * BLOCK) } else { big_len(s, max / (3 * n)) };
                let o = s.below(BIG - len);
                (x, &big_buf()[o..o + len])
            }).collect();
            for (_, d) in &v {
                cx.note(d.len());
                cx.d(|| format!("hasher with {} bytes", d.len()));
            }
            cx.evn("hashers", n as u64);
            update_many(v.iter_mut().map(|(x, d)| match &mut x.l {
                L::S(l) => (l, *d),
                _ => unreachable!(),
            }));
            for (x, d) in v.iter_mut() {
                x.model(d);
                x.check_count(cx, "count after update_many")?;
                x.check(cx, "digest after update_many")?;
                x.feed(&d[..d.len().min(BLOCK + 1)], 0)?;
                x.check(cx, "digest after another update")?;
            }
            Ok(())
        }
        _ => Err(format!("HARNESS-ERROR no megabyte cases for {}", prop)),
    }
}

/// Not much input, but many calls, jobs or hashers: numbers around the powers of two, up to 2^17
fn crowd(prop: &str, i: u64, s: &mut Src, cx: &mut Cx) -> R {
    let n = match i {
        0 => 65_540,
        1 => 70_001,
        2 => 1 << 17,
        3 => 513,
        4 => 4097,
        _ => ((1usize << s.range(8, 14)) + s.below(5)).saturating_sub(2) + if s.chance(1, 3) { s.below(1000) } else { 0 },
    };
    cx.nontrivial = true;
    cx.note(n);
    match prop {
        "C01" | "C02" => {
            // one builder, used again and again
            let (l, p) = gen_params(s);
            let (q, qp) = gen_par_params(s);
            let step = 1 + s.below(7);
            let mut v: Vec<Vec<u8>> = vec![vec![]; 40];
            for k in 0..n {
                let len = k * step % (2 * BLOCK + 3);
                let h = if prop == "C01" { l.hash(&big_buf()[..len]) } else { q.hash(&big_buf()[..len]) };
                if v.len() <= len {
                    v.resize(len + 1, vec![]);
                }
                if v[len].is_empty() {
                    cx.eq("Params::hash, used often", h.as_bytes(), || if prop == "C01" { m::hash(&p, &big_buf()[..len]) } else { m::par_hash(qp.hash_length, &qp.key, &big_buf()[..len]) })?;
                    v[len] = h.as_bytes().to_vec();
                } else if h.as_bytes() != &v[len][..] {
                    return Err(format!("hash number {} of {} bytes differs from an earlier one: got {} want {}", k, len, crate::hex(h.as_bytes()), crate::hex(&v[len])));
                }
            }
            cx.evn("hashes by one builder", n as u64);
            Ok(())
        }
        "C03" | "C04" => {
            let parallel = s.flip();
            let mut x = Pair::gen(s, cx, parallel);
            let small = 1 + s.below(4);
            cx.d(|| format!("{} updates of 0..={} bytes", n, small));
            let mut spare: Option<Pair> = None;
            for k in 0..n {
                let len = s.below(small + 1);
                let at = s.below(1000);
                x.feed(&big_buf()[at..at + len], if prop == "C03" { k % 5 } else { 0 })?;
                if prop == "C04" {
                    if k % 3 == 0 {
                        std::hint::black_box(x.digest());
                    }
                    if k % 5 == 1 {
                        spare = Some(x.clone());
                    }
                    if k % 1009 == 7 {
                        x.check_count(cx, "count")?;
                        x.check(cx, "digest in a long history")?;
                    }
                }
            }
            cx.evn("updates", n as u64);
            x.check_count(cx, "count")?;
            x.check(cx, "digest after very many updates")?;
            match spare {
                Some(y) => y.check(cx, "one of very many clones"),
                None => Ok(()),
            }
        }
        "C05" => {
            let kinds: Vec<_> = (0..7).map(|_| gen_params(s)).collect();
            let v: Vec<(usize, &'static [u8])> = (0..n).map(|_| {
                let o = s.below(1000);
                let len = if s.chance(1, 40) { s.below(5 * BLOCK) } else { s.below(2 * BLOCK + 2) };
                (s.below(7), &big_buf()[o..o + len])
            }).collect();
            cx.d(|| format!("{} jobs of 0..{} bytes", n, 5 * BLOCK));
            let mut jobs: Vec<HashManyJob> = v.iter().map(|(k, d)| HashManyJob::new(&kinds[*k].0, d)).collect();
            cx.evn("jobs", n as u64);
            hash_many(jobs.iter_mut());
            for (k, (j, (p, d))) in jobs.iter().zip(&v).enumerate() {
                cx.eq(&format!("job {} of {}", k, n), j.to_hash().as_bytes(), || m::hash(&kinds[*p].1, d))?;
            }
            Ok(())
        }
        "C06" => {
            let kinds: Vec<Pair> = (0..7).map(|_| Pair::gen(s, cx, false)).collect();
            let mut v: Vec<(Pair, &'static [u8])> = (0..n).map(|_| {
                let mut x = kinds[s.below(7)].clone();
                let _ = x.feed(&big_buf()[..s.below(BLOCK + 2)], 0);
                let o = s.below(1000);
                let len = if s.chance(1, 40) { s.below(5 * BLOCK) } else { s.below(2 * BLOCK + 2) };
                (x, &big_buf()[o..o + len])
            }).collect();
            cx.d(|| format!("{} hashers, each with 0..{} bytes", n, 5 * BLOCK));
            cx.evn("hashers", n as u64);
            update_many(v.iter_mut().map(|(x, d)| match &mut x.l {
                L::S(l) => (l, *d),
                _ => unreachable!(),
            }));
            for (x, d) in v.iter_mut() {
                x.model(d);
                x.check_count(cx, "count after update_many")?;
                x.check(cx, "digest after update_many")?;
            }
            Ok(())
        }
        _ => Err(format!("HARNESS-ERROR no crowds for {}", prop)),
    }
}

// ---------------------------------------------------------------- deterministic sweeps

use std::sync::OnceLock;
pub const TBL: usize = 4400;
fn paint() -> &'static [u8] {
    static B: OnceLock<Vec<u8>> = OnceLock::new();
    B.get_or_init(|| {
        let mut x = 0x1234u64;
        (0..TBL).map(|_| crate::src::splitmix(&mut x) as u8).collect()
    })
}
fn full_key() -> &'static [u8] {
    static B: OnceLock<Vec<u8>> = OnceLock::new();
    B.get_or_init(|| (0..KEY as u8).map(|i| i ^ 0xa5).collect())
}
/// digests of every prefix of the painted buffer: [keyed][parallel]
fn table(keyed: bool, parallel: bool) -> &'static Vec<Vec<u8>> {
    static T: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    &T.get_or_init(|| {
        let mut out = vec![];
        for keyed in [false, true] {
            for parallel in [false, true] {
                let key = if keyed { full_key() } else { &[] };
                let mut v = vec![];
                if parallel {
                    let mut h = m::Par::new(OUT, key);
                    for i in 0..TBL {
                        v.push(h.digest());
                        h.feed(&paint()[i..i + 1]);
                    }
                } else {
                    let mut h = m::H::new(&m::P { key: key.to_vec(), ..Default::default() });
                    for i in 0..TBL {
                        v.push(h.digest());
                        h.feed(&paint()[i..i + 1]);
                    }
                }
                out.push(v);
            }
        }
        out
    })[2 * keyed as usize + parallel as usize]
}
fn near_edge(n: usize, unit: usize) -> bool {
    let r = n % unit;
    r <= 2 || r >= unit - 2
}
fn st(keyed: bool) -> lib::Params {
    let mut p = lib::Params::new();
    if keyed {
        p.key(full_key());
    }
    p
}
fn pst(keyed: bool) -> par::Params {
    let mut p = par::Params::new();
    if keyed {
        p.key(full_key());
    }
    p
}
fn dense() -> bool {
    crate::run::DENSE.load(std::sync::atomic::Ordering::Relaxed)
}

const C05_LENS: [usize; 6] = [0, 1, BLOCK, BLOCK + 1, 2 * BLOCK, 3 * BLOCK + 5];

fn sweep_sections(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "C01" => vec![("len", (TBL / 20) as u64), ("hk", OUT as u64), ("field", 24), ("typical", 245)],
        "C02" => vec![("plen", (TBL / 20) as u64), ("phk", OUT as u64)],
        "C03" => vec![("split", 9 * BLOCK as u64 + 2), ("psplit", 4 * STRIPE as u64 + 2), ("bytes", 6)],
        "C04" => vec![("life", 6 * BLOCK as u64 + 3), ("plife", 4 * STRIPE as u64 + 3)],
        "C05" => vec![("tuple", 4096), ("count", 3 * MAX_DEG as u64 + 2)],
        "C06" => vec![("fill", BLOCK as u64 + 1), ("odd", BLOCK as u64 + 1)],
        "C09" => vec![("glen", 20 * BLOCK as u64 + 1)],
        "C10" => vec![("field", 24), ("over", KEY as u64 + 1), ("illegal", 6), ("pairs", 11), ("grid", 121)],
        "C11" => vec![("bits", 8 * OUT as u64), ("short", 1), ("lens", OUT as u64)],
        _ => vec![],
    }
}
pub fn sweep_len(prop: &str) -> u64 {
    sweep_sections(prop).iter().map(|x| x.1).sum()
}
pub fn sweep(prop: &str, mut i: u64, cx: &mut Cx) -> R {
    for (name, n) in sweep_sections(prop) {
        if i < n {
            cx.nontrivial = true;
            cx.note(i as usize);
            cx.note(name.len() * 31 + name.as_bytes()[0] as usize + OUT * 1000);
            cx.d(|| format!("{} sweep section {} index {}", NAME, name, i));
            return sweep_one(name, i as usize, cx).map_err(|e| format!("{} sweep {}[{}]: {}", NAME, name, i, e));
        }
        i -= n;
    }
    Ok(())
}

/// one parameter field at a time, every value (or every bit)
fn field_values(f: usize) -> Vec<m::P> {
    let d = m::P::default();
    let mut v = vec![];
    let pat = |n: usize| -> Vec<u8> { (0..n).map(|i| 0x81u8.wrapping_add((i * 37) as u8)).collect() };
    match f {
        0 => (1..=OUT).for_each(|x| v.push(m::P { hash_length: x, ..d.clone() })),
        1 => (0..=KEY).for_each(|x| v.push(m::P { key: pat(x), ..d.clone() })),
        2 => (0..=SALT).for_each(|x| v.push(m::P { salt: pat(x), ..d.clone() })),
        3 => (0..=SALT).for_each(|x| v.push(m::P { personal: pat(x), ..d.clone() })),
        4 => (0..=255).for_each(|x| v.push(m::P { fanout: x, ..d.clone() })),
        5 => (0..=255).for_each(|x| v.push(m::P { max_depth: x, ..d.clone() })),
        6 => (0..=255).for_each(|x| v.push(m::P { node_depth: x, ..d.clone() })),
        7 => (0..=OUT).for_each(|x| v.push(m::P { inner_hash_length: x, ..d.clone() })),
        8 => (0..32).for_each(|x| v.push(m::P { max_leaf_length: 1 << x, ..d.clone() })),
        9 => (0..=32).for_each(|x| v.push(m::P { max_leaf_length: ((1u64 << x) - 1) as u32, ..d.clone() })),
        10 => (0..OFF_BITS).for_each(|x| v.push(m::P { node_offset: 1 << x, ..d.clone() })),
        11 => (0..=OFF_BITS).for_each(|x| v.push(m::P { node_offset: ((1u128 << x) - 1) as u64, ..d.clone() })),
        12 => (0..8 * SALT).for_each(|x| {
            let mut s = vec![0; SALT];
            s[x / 8] = 1 << (x % 8);
            v.push(m::P { salt: s, ..d.clone() })
        }),
        13 => (0..8 * SALT).for_each(|x| {
            let mut s = vec![0; SALT];
            s[x / 8] = 1 << (x % 8);
            v.push(m::P { personal: s, ..d.clone() })
        }),
        14 => (0..8 * KEY).for_each(|x| {
            let mut s = vec![0; KEY];
            s[x / 8] = 1 << (x % 8);
            v.push(m::P { key: s, ..d.clone() })
        }),
        15 => [false, true].iter().for_each(|x| v.push(m::P { last_node: *x, ..d.clone() })),
        16 => (1..=OUT).for_each(|x| v.push(m::P { hash_length: x, last_node: true, key: pat(x.min(KEY)), ..d.clone() })),
        17 => (0..=KEY).for_each(|x| v.push(m::P { key: pat(x), salt: pat(x.min(SALT)), personal: pat(x.min(SALT)), last_node: x % 2 == 0, ..d.clone() })),
        18 => (0..=255).for_each(|x| v.push(m::P { fanout: x, max_depth: 255 - x, node_depth: x ^ 0x5a, ..d.clone() })),
        19 => (0..=255u8).for_each(|x| v.push(m::P { node_depth: x, inner_hash_length: x as usize % (OUT + 1), node_offset: (x as u64) << 40, ..d.clone() })),
        20 => (0..=KEY).for_each(|x| v.push(m::P { key: vec![0; x], ..d.clone() })), // all-zero keys of every length
        21 => (0..=SALT).for_each(|x| v.push(m::P { salt: vec![0xff; x], personal: vec![0xff; SALT - x], ..d.clone() })),
        22 => (0..=255u8).for_each(|x| v.push(m::P { max_leaf_length: x as u32 * 0x01010101, node_offset: (x as u64 * 0x010101010101) & if OFF_BITS == 64 { u64::MAX } else { (1 << 48) - 1 }, ..d.clone() })),
        _ => lits().iter().for_each(|x| {
            v.push(m::P { max_leaf_length: *x as u32, node_offset: *x & if OFF_BITS == 64 { u64::MAX } else { (1 << 48) - 1 }, ..d.clone() });
            v.push(m::P { fanout: *x as u8, max_depth: *x as u8, node_depth: *x as u8, ..d.clone() });
        }),
    }
    v
}

type Setter = fn(&mut lib::Params, &mut m::P, usize);
fn setters() -> Vec<Setter> {
    vec![
        |l, p, v| { p.hash_length = 1 + v % OUT; l.hash_length(p.hash_length); },
        |l, p, v| { p.key = vec![v as u8; v % (KEY + 1)]; l.key(&p.key); },
        |l, p, v| { p.salt = vec![v as u8; v % (SALT + 1)]; l.salt(&p.salt); },
        |l, p, v| { p.personal = vec![v as u8; v % (SALT + 1)]; l.personal(&p.personal); },
        |l, p, v| { p.fanout = v as u8; l.fanout(p.fanout); },
        |l, p, v| { p.max_depth = v as u8; l.max_depth(p.max_depth); },
        |l, p, v| { p.max_leaf_length = (v as u32).wrapping_mul(0x01010101); l.max_leaf_length(p.max_leaf_length); },
        |l, p, v| { p.node_offset = (v as u64).wrapping_mul(0x0101_0101_0101); p.node_offset &= 0xffff_ffff_ffff; l.node_offset(p.node_offset as OffT); },
        |l, p, v| { p.node_depth = v as u8; l.node_depth(p.node_depth); },
        |l, p, v| { p.inner_hash_length = v % (OUT + 1); l.inner_hash_length(p.inner_hash_length); },
        |l, p, v| { p.last_node = v % 2 == 1; l.last_node(p.last_node); },
    ]
}
/// how many different values each of them has
const SETTER_VALUES: [usize; 11] = [OUT, KEY + 1, SALT + 1, SALT + 1, 256, 256, 256, 256, 256, OUT + 1, 2];

fn sweep_one(name: &str, i: usize, cx: &mut Cx) -> R {
    let buf = paint();
    match name {
        "len" => {
            for n in i * 20..(i + 1) * 20 {
                for keyed in [false, true] {
                    let d = cx.input(&buf[..n], &mut Src::rng((n * 2 + keyed as usize) as u64));
                    cx.eq(&format!("hash of {} bytes keyed={}", n, keyed), st(keyed).hash(d).as_bytes(), || table(keyed, false)[n].clone())?;
                }
                cx.eq("default", oneshot(&buf[..n]).as_bytes(), || table(false, false)[n].clone())?;
            }
        }
        "plen" => {
            for n in i * 20..(i + 1) * 20 {
                for keyed in [false, true] {
                    let d = cx.input(&buf[..n], &mut Src::rng((n * 2 + keyed as usize) as u64));
                    cx.eq(&format!("parallel hash of {} bytes keyed={}", n, keyed), pst(keyed).hash(d).as_bytes(), || table(keyed, true)[n].clone())?;
                }
                cx.eq("default", par_oneshot(&buf[..n]).as_bytes(), || table(false, true)[n].clone())?;
            }
        }
        "hk" => {
            for k in 0..=KEY {
                let p = m::P { hash_length: i + 1, key: buf[..k].to_vec(), ..Default::default() };
                for n in [0, 1, BLOCK, 2 * BLOCK + 1] {
                    let mut l = lib::Params::new();
                    l.hash_length(i + 1).key(&buf[..k]);
                    cx.eq(&format!("hash_length={} key_len={} len={}", i + 1, k, n), l.hash(&buf[..n]).as_bytes(), || m::hash(&p, &buf[..n]))?;
                }
            }
        }
        "phk" => {
            for k in 0..=KEY {
                for n in [0, 1, STRIPE, 2 * STRIPE + 1] {
                    let mut l = par::Params::new();
                    l.hash_length(i + 1).key(&buf[..k]);
                    cx.eq(&format!("hash_length={} key_len={} len={}", i + 1, k, n), l.hash(&buf[..n]).as_bytes(), || m::par_hash(i + 1, &buf[..k], &buf[..n]))?;
                }
            }
        }
        "field" => {
            for p in field_values(i) {
                let mut l = lib::Params::new();
                build(&mut l, &p);
                for n in [0, 3, BLOCK + 3] {
                    cx.eq(&pdesc(&p), l.hash(&buf[..n]).as_bytes(), || m::hash(&p, &buf[..n]))?;
                }
                cx.eq(&pdesc(&p), l.to_state().update(&buf[..9]).finalize().as_bytes(), || m::hash(&p, &buf[..9]))?;
                let mut j = HashManyJob::new(&l, &buf[..9]);
                hash_many(std::iter::once(&mut j));
                cx.eq(&pdesc(&p), j.to_hash().as_bytes(), || m::hash(&p, &buf[..9]))?;
                cx.state(&[1, i, p.hash_length, p.key.len()]);
            }
        }
        "typical" => {
            // every combination of values that programs use
            let hl = [1, 16, 20, 28, 32, 48, 64][i % 7].min(OUT);
            let kl = [0, 1, 16, 32, 64][i / 7 % 5].min(KEY);
            let fanout = [0, 1, 2, 3, 4, 8, 255][i / 35];
            let mut turn = i;
            for (max_depth, leaf, off) in [1u8, 2, 3, 255].iter().flat_map(|a| [0u32, 1, 4096, u32::MAX].iter().flat_map(move |b| [0u64, 1, 2, 7, 1 << 32].iter().map(move |c| (*a, *b, *c)))) {
                for (nd, inner) in [0u8, 1, 2, 3].iter().flat_map(|a| [0usize, 20, 32, 64].iter().map(move |b| (*a, (*b).min(OUT)))) {
                    turn += 1;
                    if !dense() && turn % 16 != 0 {
                        continue;
                    }
                    let p = m::P {
                        hash_length: hl, key: full_key()[..kl].to_vec(), fanout, max_depth, max_leaf_length: leaf, node_offset: off, node_depth: nd, inner_hash_length: inner,
                        last_node: turn / 16 % 2 == 1, salt: if turn / 32 % 2 == 1 { buf[..SALT].to_vec() } else { vec![] }, personal: if turn / 64 % 2 == 1 { buf[7..7 + SALT].to_vec() } else { vec![] },
                    };
                    let mut l = lib::Params::new();
                    build(&mut l, &p);
                    let n = [0, 1, BLOCK][turn % 3];
                    cx.eq(&pdesc(&p), l.hash(&buf[..n]).as_bytes(), || m::hash(&p, &buf[..n]))?;
                }
            }
        }
        "split" | "psplit" => {
            let parallel = name == "psplit";
            let (unit, nmax) = if parallel { (STRIPE, 4 * STRIPE + 4) } else { (BLOCK, 9 * BLOCK) };
            let nmax = if i <= 2 * unit + 1 { nmax } else if parallel { 2 * STRIPE + 4 } else { 4 * BLOCK }; // deeper in, shorter
            for keyed in [false, true] {
                let t = table(keyed, parallel);
                let mut a = st(keyed).to_state();
                let mut pa = pst(keyed).to_state();
                if parallel {
                    pa.update(&buf[..i]);
                } else {
                    a.update(&buf[..i]);
                }
                for n in 0..=nmax {
                    if !dense() && !(near_edge(n, BLOCK) || near_edge(i + n, unit) || n % 29 == i % 29) {
                        continue;
                    }
                    let d = &buf[i..i + n];
                    let h = if parallel { pa.clone().update(d).finalize() } else { a.clone().update(d).finalize() };
                    cx.state(&[3, parallel as usize, keyed as usize, i, n]);
                    cx.eq(&format!("{} bytes then {} bytes, keyed={} parallel={}", i, n, keyed, parallel), h.as_bytes(), || t[i + n].clone())?;
                    if n % 64 == 63 {
                        // and a third piece
                        let k = (i * 7 + n) % (unit + 9);
                        let h = if parallel {
                            pa.clone().update(d).update(&buf[i + n..i + n + k]).finalize()
                        } else {
                            a.clone().update(d).update(&buf[i + n..i + n + k]).finalize()
                        };
                        cx.eq(&format!("{} then {} then {} bytes, keyed={} parallel={}", i, n, k, keyed, parallel), h.as_bytes(), || t[i + n + k].clone())?;
                    }
                }
            }
        }
        "bytes" => {
            // fixed step sizes through the whole buffer, checking every prefix
            let step = [1, 2, 3, 17, BLOCK - 1, BLOCK + 1][i];
            for keyed in [false, true] {
                let mut a = st(keyed).to_state();
                let mut pa = pst(keyed).to_state();
                let mut at = 0;
                while at + step < TBL {
                    a.update(&buf[at..at + step]);
                    pa.update(&buf[at..at + step]);
                    at += step;
                    cx.eq(&format!("steps of {} up to {} keyed={}", step, at, keyed), a.finalize().as_bytes(), || table(keyed, false)[at].clone())?;
                    cx.eq(&format!("parallel steps of {} up to {} keyed={}", step, at, keyed), pa.finalize().as_bytes(), || table(keyed, true)[at].clone())?;
                    if a.count() as usize != at || pa.count() as usize != at {
                        return Err(format!("count {} / {} after {} bytes", a.count(), pa.count(), at));
                    }
                }
            }
        }
        "life" => {
            for keyed in [false, true] {
                let mut x = st(keyed).to_state();
                x.update(&buf[..i]);
                let want = |ln: bool, n: usize| {
                    m::hash(&m::P { key: if keyed { full_key().to_vec() } else { vec![] }, last_node: ln, ..Default::default() }, &buf[..n])
                };
                for rep in 0..2 {
                    cx.eq(&format!("finalize #{} at {}", rep, i), x.finalize().as_bytes(), || want(false, i))?;
                    if x.count() as usize != i {
                        return Err(format!("count is {} after {} bytes (keyed={})", x.count(), i, keyed));
                    }
                }
                // the flag set, unset, set before and after more input
                for (n, seq) in [(0usize, [true, true]), (0, [true, false]), (1, [false, true]), (BLOCK, [true, true]), (BLOCK + 1, [true, false]), (3 * BLOCK, [false, true])] {
                    let mut y = x.clone();
                    y.set_last_node(seq[0]);
                    cx.eq("finalize with flag", y.finalize().as_bytes(), || want(seq[0], i))?;
                    y.update(&buf[i..i + n]);
                    y.set_last_node(seq[1]);
                    cx.eq(&format!("flag {:?}, {} then {} bytes", seq, i, n), y.finalize().as_bytes(), || want(seq[1], i + n))?;
                    cx.state(&[4, keyed as usize, i, n, seq[0] as usize, seq[1] as usize]);
                    if y.count() as usize != i + n {
                        return Err(format!("count is {} after {} + {} bytes (keyed={})", y.count(), i, n, keyed));
                    }
                }
                cx.eq("original after clones moved on", x.finalize().as_bytes(), || want(false, i))?;
                if x.count() as usize != i {
                    return Err(format!("count is {} after {} bytes (keyed={})", x.count(), i, keyed));
                }
            }
        }
        "plife" => {
            for keyed in [false, true] {
                let mut x = pst(keyed).to_state();
                x.update(&buf[..i]);
                for rep in 0..2 {
                    cx.eq(&format!("finalize #{} at {}", rep, i), x.finalize().as_bytes(), || table(keyed, true)[i].clone())?;
                    if x.count() as usize != i {
                        return Err(format!("count is {} after {} bytes (keyed={})", x.count(), i, keyed));
                    }
                }
                for n in [0, 1, BLOCK, STRIPE - 1, STRIPE, STRIPE + 1, 2 * STRIPE] {
                    let mut y = x.clone();
                    y.update(&buf[i..i + n]);
                    cx.eq(&format!("clone at {} then {} bytes", i, n), y.finalize().as_bytes(), || table(keyed, true)[i + n].clone())?;
                    cx.state(&[4, 2 + keyed as usize, i, n]);
                    if y.count() as usize != i + n {
                        return Err(format!("count is {} after {} + {} bytes (keyed={})", y.count(), i, n, keyed));
                    }
                }
                cx.eq("original after clones moved on", x.finalize().as_bytes(), || table(keyed, true)[i].clone())?;
            }
        }
        "tuple" => {
            // tuples of job lengths for a full working set plus one, and smaller sets; 4096 slices of
            // the space, each visiting tuples congruent to i
            let kmax = if MAX_DEG == 4 { 5 } else { 9 };
            let small: &[usize] = &[0, BLOCK, 2 * BLOCK + 1];
            let per: usize = if dense() { usize::MAX } else { 6 };
            for k in 1..=kmax {
                let set: &[usize] = if k <= 5 { &C05_LENS } else { small };
                let total = set.len().pow(k as u32);
                let mut done = 0;
                let mut t = (i * 2654435761usize) % 4096;
                while t < total && done < per {
                    let mut x = t;
                    let keyed_mask = if t % 3 == 0 { ((t as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 17) as usize } else { 0 };
                    let mut jobs = vec![];
                    let mut want = vec![];
                    for lane in 0..k {
                        let n = set[x % set.len()];
                        x /= set.len();
                        let keyed = keyed_mask >> lane & 1 == 1;
                        let off = lane * 40;
                        let _ = off;
                        jobs.push(HashManyJob::new(&st(keyed), &buf[..n]));
                        want.push((keyed, n));
                    }
                    hash_many(jobs.iter_mut());
                    cx.ev("hash_many calls");
                    cx.state(&[5, k, t]);
                    for (lane, (j, (keyed, n))) in jobs.iter().zip(&want).enumerate() {
                        cx.eq(&format!("lane {} of lengths {:?}", lane, want), j.to_hash().as_bytes(), || table(*keyed, false)[*n].clone())?;
                    }
                    // distance to the next tuple of this slice
                    t += if dense() || total < 200_000 { 4096 } else { 4096 * (total / 4096 / per).max(1) };
                    done += 1;
                }
            }
        }
        "count" => {
            // i jobs, one of them of another length, at every position; keyed or not, each flag
            for odd in 0..i.max(1) {
                for (base, other) in [(BLOCK, 5 * BLOCK), (3 * BLOCK, 0), (2 * BLOCK + 7, BLOCK + 1), (0, 9 * BLOCK + 3)] {
                    for v in 0..3 {
                        let mut jobs = vec![];
                        let mut want = vec![];
                        for lane in 0..i {
                            let n = if lane == odd { other } else { base };
                            let p = m::P {
                                key: if v == 1 || (v == 2 && lane % 2 == 0) { full_key().to_vec() } else { vec![] },
                                last_node: v == 2 && lane == odd,
                                hash_length: if v == 2 { OUT - lane % 7 } else { OUT },
                                ..Default::default()
                            };
                            let mut l = lib::Params::new();
                            build(&mut l, &p);
                            // different data in every lane
                            let d = &buf[lane * 16..lane * 16 + n];
                            jobs.push(HashManyJob::new(&l, d));
                            want.push((p, d));
                        }
                        hash_many(jobs.iter_mut());
                        cx.ev("hash_many calls");
                        cx.state(&[55, i, odd, base, v]);
                        for (lane, (j, (p, d))) in jobs.iter().zip(&want).enumerate() {
                            cx.eq(&format!("{} jobs of {} bytes, #{} of {}: job {} ({})", i, base, odd, other, lane, pdesc(p)), j.to_hash().as_bytes(), || m::hash(p, d))?;
                        }
                    }
                }
            }
        }
        "fill" | "odd" => {
            // every fill level, batched: all alike, or one different neighbour
            let ns = [0, 1, BLOCK - i.min(BLOCK), (BLOCK - i.min(BLOCK)) + 1, BLOCK, BLOCK + 1, 3 * BLOCK, 4 * BLOCK + 3];
            for k in [1, 2, 3, MAX_DEG, MAX_DEG + 1, 2 * MAX_DEG] {
                for n in ns {
                    for keyed in [false, true] {
                        let odd = if name == "odd" { (i + n) % k } else { usize::MAX };
                        let mut states = vec![];
                        let mut fed = vec![];
                        for lane in 0..k {
                            let f = if lane == odd { (i * 5 + 3) % (BLOCK + 1) } else { i };
                            let kd = keyed ^ (lane == odd);
                            let mut x = st(kd).to_state();
                            x.update(&buf[..f]);
                            states.push(x);
                            fed.push((kd, f, if lane == odd { (n * 3 + 1) % (5 * BLOCK) } else { n }));
                        }
                        let ins: Vec<&[u8]> = fed.iter().map(|(_, f, n)| &buf[*f..f + n]).collect();
                        update_many(states.iter_mut().zip(ins.iter()));
                        cx.ev("update_many calls");
                        cx.state(&[6, i, k, n, keyed as usize, odd.min(99)]);
                        for (lane, (x, (kd, f, n))) in states.iter_mut().zip(&fed).enumerate() {
                            let what = format!("batch of {} at fill {} + {}: lane {} keyed={}", k, f, n, lane, kd);
                            if x.count() as usize != f + n {
                                return Err(format!("{}: count {}", what, x.count()));
                            }
                            cx.eq(&what, x.finalize().as_bytes(), || table(*kd, false)[f + n].clone())?;
                            x.update(&buf[f + n..f + n + 200]);
                            cx.eq(&format!("{} and a single update", what), x.finalize().as_bytes(), || table(*kd, false)[f + n + 200].clone())?;
                        }
                    }
                }
            }
        }
        "over" => {
            // a value set over another leaves nothing of the first
            let a = i;
            for b in 0..=KEY {
                let p = m::P { key: buf[100..100 + b].to_vec(), ..Default::default() };
                let mut l = lib::Params::new();
                l.key(&buf[..a]).key(&buf[100..100 + b]);
                cx.state(&[10, 77, a, b]);
                cx.eq(&format!("key of {} bytes over {} bytes", b, a), l.hash(&buf[..5]).as_bytes(), || m::hash(&p, &buf[..5]))?;
                let mut l = par::Params::new();
                l.key(&buf[..a]).key(&buf[100..100 + b]);
                cx.eq(&format!("parallel key of {} bytes over {} bytes", b, a), l.hash(&buf[..5]).as_bytes(), || m::par_hash(OUT, &p.key, &buf[..5]))?;
                if a <= SALT && b <= SALT {
                    let p = m::P { salt: buf[100..100 + b].to_vec(), ..Default::default() };
                    let mut l = lib::Params::new();
                    l.salt(&buf[..a]).salt(&buf[100..100 + b]);
                    cx.eq(&format!("salt of {} bytes over {} bytes", b, a), l.hash(&buf[..5]).as_bytes(), || m::hash(&p, &buf[..5]))?;
                    let p = m::P { personal: buf[100..100 + b].to_vec(), ..Default::default() };
                    let mut l = lib::Params::new();
                    l.personal(&buf[..a]).personal(&buf[100..100 + b]);
                    cx.eq(&format!("personal of {} bytes over {} bytes", b, a), l.hash(&buf[..5]).as_bytes(), || m::hash(&p, &buf[..5]))?;
                }
            }
        }
        "illegal" => {
            let mut tried = 0u64;
            let scal = |max: usize, zero: bool| -> Vec<usize> {
                let mut v: Vec<usize> = (max + 1..max + 600).collect();
                for sh in [16, 24, 31, 32, 33, 40, 48, 56, 63] {
                    for d in [0, 1, 16, 32, 64] {
                        v.push((1usize << sh) + d);
                    }
                }
                v.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, i32::MAX as usize, u32::MAX as usize]);
                v.extend(lits().iter().map(|x| *x as usize).filter(|x| *x > max));
                if zero {
                    v.push(0);
                }
                v.retain(|x| *x > max || (zero && *x == 0));
                v
            };
            let big = vec![7u8; 70000];
            let mut refuse = |what: &str, v: u64, f: &mut dyn FnMut()| -> R {
                tried += 1;
                if panics(|| f()) {
                    Ok(())
                } else {
                    Err(format!("{} accepted the illegal value (length) {}", what, v))
                }
            };
            match i {
                0 => {
                    for v in scal(OUT, true) {
                        refuse("hash_length", v as u64, &mut || {
                            lib::Params::new().hash_length(v);
                        })?;
                        refuse("parallel hash_length", v as u64, &mut || {
                            par::Params::new().hash_length(v);
                        })?;
                    }
                }
                1 => {
                    for v in scal(OUT, false) {
                        refuse("inner_hash_length", v as u64, &mut || {
                            lib::Params::new().inner_hash_length(v);
                        })?;
                    }
                }
                2 => {
                    for v in scal(KEY, false).into_iter().filter(|v| *v <= 70000) {
                        refuse("key", v as u64, &mut || {
                            lib::Params::new().key(&big[..v]);
                        })?;
                        refuse("parallel key", v as u64, &mut || {
                            par::Params::new().key(&big[..v]);
                        })?;
                    }
                }
                3 => {
                    for v in scal(SALT, false).into_iter().filter(|v| *v <= 70000) {
                        refuse("salt", v as u64, &mut || {
                            lib::Params::new().salt(&big[..v]);
                        })?;
                    }
                }
                4 => {
                    for v in scal(SALT, false).into_iter().filter(|v| *v <= 70000) {
                        refuse("personal", v as u64, &mut || {
                            lib::Params::new().personal(&big[..v]);
                        })?;
                    }
                }
                _ => {
                    if OFF_BITS < 64 {
                        for sh in 48..64 {
                            for low in [0u64, 1, 0xffff, 0xffff_ffff, 0xffff_ffff_ffff] {
                                let v = 1u64 << sh | low;
                                refuse("node_offset", v, &mut || {
                                    lib::Params::new().node_offset(v as OffT);
                                })?;
                            }
                        }
                        refuse("node_offset", u64::MAX, &mut || {
                            lib::Params::new().node_offset(u64::MAX as OffT);
                        })?;
                    }
                }
            }
            cx.evn("illegal values tried", tried);
        }
        "grid" => {
            // every value of every setter after every value of every other one
            let (a, b) = (i / 11, i % 11);
            let setters = setters();
            if a == b {
                return Ok(());
            }
            for v in 0..SETTER_VALUES[a] {
                for w in 0..SETTER_VALUES[b] {
                    if !dense() && (v * 31 + w) % 16 != i % 16 {
                        continue;
                    }
                    let mut l = lib::Params::new();
                    let mut p = m::P::default();
                    setters[a](&mut l, &mut p, v);
                    setters[b](&mut l, &mut p, w);
                    cx.eq(&pdesc(&p), l.hash(b"").as_bytes(), || m::hash(&p, b""))?;
                }
                cx.state(&[10, 89, i, v]);
            }
        }
        "pairs" => {
            // every ordered pair of setters, in both orders, on top of every single one set before
            let setters = setters();
            for b in 0..setters.len() {
                for c in 0..setters.len() {
                    for v in [0usize, 1, 5, 13, 31, 64, 129, 255] {
                        let mut l = lib::Params::new();
                        let mut p = m::P::default();
                        setters[i](&mut l, &mut p, v + 3);
                        setters[b](&mut l, &mut p, v);
                        setters[c](&mut l, &mut p, v + 1);
                        cx.state(&[10, 88, i, b, c, v]);
                        cx.eq(&pdesc(&p), l.hash(b"abc").as_bytes(), || m::hash(&p, b"abc"))?;
                    }
                }
            }
        }
        "bits" => {
            let base: [u8; OUT] = buf[..OUT].try_into().unwrap();
            for b in [base, [0u8; OUT], [0xffu8; OUT]] {
                let a = lib::Hash::from(b);
                let mut x = b;
                x[i / 8] ^= 1 << (i % 8);
                let c = lib::Hash::from(x);
                c11_view(&a, &b, cx)?;
                c11_view(&c, &x, cx)?;
                c11_pair(&a, &c, cx)?;
                c11_slice(&a, &x, cx)?;
                // a second flip anywhere (including the same one: equal again)
                for j in 0..8 * OUT {
                    let mut y = x;
                    y[j / 8] ^= 1 << (j % 8);
                    c11_pair(&a, &lib::Hash::from(y), cx)?;
                    cx.state(&[11, i, j]);
                }
            }
        }
        "short" => {
            // one- and two-byte digests of many messages: all pairs, with true collisions
            let mut hs = vec![];
            for k in 0..90 {
                for n in [1usize, 2, 3] {
                    hs.push(lib::Params::new().hash_length(n).hash(&buf[..k]));
                    hs.push(par::Params::new().hash_length(n).hash(&buf[..k]));
                }
            }
            for a in &hs {
                for b in &hs {
                    c11_pair(a, b, cx)?;
                }
            }
        }
        "lens" => {
            let n = i + 1;
            let h = lib::Params::new().hash_length(n).hash(&buf[..77]);
            let w = m::hash(&m::P { hash_length: n, ..Default::default() }, &buf[..77]);
            let w = if crate::oracle_off() { h.as_bytes().to_vec() } else { w };
            c11_view(&h, &w, cx)?;
            for k in 0..=2 * OUT {
                let mut v = w.clone();
                v.resize(k, 0);
                c11_slice(&h, &v, cx)?;
                if k > n {
                    let mut v = w.clone();
                    while v.len() < k {
                        v.push(w[v.len() % n]);
                    }
                    c11_slice(&h, &v, cx)?;
                }
            }
            for j in 0..8 * n {
                let mut v = w.clone();
                v[j / 8] ^= 1 << (j % 8);
                c11_slice(&h, &v, cx)?;
            }
        }
        "glen" => {
            // every length, ending and starting at an inaccessible page, through every entry point
            for at in [0, 7] {
                let d = cx.input_at(&buf[..i], at, 0);
                let _ = (st(false).hash(d), st(true).hash(d), pst(false).hash(d), pst(true).hash(d));
                let x = st(false).to_state().update(d).update(d).finalize();
                let y = pst(false).to_state().update(d).update(d).finalize();
                let _ = (x == *d, y == x);
                for k in [1, 2, 3, MAX_DEG, MAX_DEG + 1] {
                    let mut jobs: Vec<HashManyJob> = (0..k).map(|_| HashManyJob::new(&st(false), d)).collect();
                    hash_many(jobs.iter_mut());
                    let mut sts: Vec<lib::State> = (0..k).map(|_| st(false).to_state()).collect();
                    update_many(sts.iter_mut().zip(std::iter::repeat(d)).map(|(a, b)| (a, b)));
                    for (j, x) in jobs.iter().zip(&sts) {
                        if j.to_hash() != x.finalize() {
                            // not this property's business, but the result must be used
                            cx.ev("digests that differ");
                        }
                    }
                }
                cx.state(&[9, i, at]);
                cx.ev("guarded lengths");
            }
            // every alignment
            for off in 1..64usize {
                if off < 4 || off % 16 == 15 || (off + i) % 13 == 0 {
                    let d = cx.input_at(&buf[..i], 9, off);
                    let _ = (oneshot(d), par_oneshot(d), st(true).hash(d));
                    cx.state(&[99, i.min(300), d.as_ptr() as usize % 64]);
                }
            }
            cx.inputs_untouched()?;
        }
        _ => return Err("HARNESS-ERROR unknown sweep".into()),
    }
    Ok(())
}

// ---------------------------------------------------------------- small deterministic cases (Miri, other targets)

/// How many small cases there are, and one of them: a few compressions each, touching every entry point
/// of the library with every kind of edge. What the library returns goes to `cx.saw` through `cx.eq`.
pub fn mini_len() -> usize {
    MINI.iter().map(|k| k.1).sum()
}
const MINI: [(&str, usize); 13] = [
    ("oneshot", 24),
    ("param", 24),
    ("state", 40),
    ("par", 30),
    ("parstate", 30),
    ("many", 40),
    ("manylens", 20),
    ("upd", 40),
    ("eq", 12),
    ("write", 6),
    ("life", 8),
    ("dbg", 4),
    ("hostile", 16),
];
fn mini_buf(s: &mut Src, cx: &mut Cx, n: usize, off: usize) -> &'static [u8] {
    let mut x = s.u64();
    let mut v = vec![0u8; n];
    for c in v.chunks_mut(8) {
        let w = crate::src::splitmix(&mut x).to_le_bytes();
        c.copy_from_slice(&w[..c.len()]);
    }
    cx.input_at(&v, 0, off)
}
fn mini_key(s: &mut Src, i: usize) -> Vec<u8> {
    let n = [0, KEY, 1, 0, KEY - 1, 0, 7][i % 7];
    let x = s.u64() as u8;
    (0..n).map(|i| (i as u8).wrapping_mul(29) ^ x).collect()
}
pub fn mini(mut i: usize, s: &mut Src, cx: &mut Cx) -> R {
    for (name, n) in MINI {
        if i < n {
            cx.nontrivial = true;
            cx.note(i);
            cx.note(name.len() ^ (name.as_bytes()[0] as usize) << 8 ^ OUT << 20);
            cx.d(|| format!("{} small case {}[{}]", NAME, name, i));
            return mini_one(name, i, s, cx).map_err(|e| format!("{} small case {}[{}]: {}", NAME, name, i, e));
        }
        i -= n;
    }
    Ok(())
}
fn mini_one(name: &str, i: usize, s: &mut Src, cx: &mut Cx) -> R {
    const L: [usize; 12] = [0, 1, BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK - 1, 2 * BLOCK, 2 * BLOCK + 1, 3 * BLOCK, 7, BLOCK + BLOCK / 2, 4 * BLOCK + 3];
    const PL: [usize; 15] = [
        0, 1, BLOCK, BLOCK + 1, 2 * BLOCK, STRIPE - BLOCK, STRIPE - 1, STRIPE, STRIPE + 1, STRIPE + BLOCK, STRIPE + 3 * BLOCK + 1,
        2 * STRIPE - BLOCK + 1, 2 * STRIPE, 2 * STRIPE + 1, 3 * STRIPE - 1,
    ];
    match name {
        "oneshot" => {
            let n = L[i % 12];
            let d = mini_buf(s, cx, n, 1 + i % 7);
            let p = m::P { key: mini_key(s, i / 12 * 2), hash_length: [OUT, 1 + i][i / 12], ..Default::default() };
            let mut l = lib::Params::new();
            build(&mut l, &p);
            cx.eq("hash", l.hash(d).as_bytes(), || m::hash(&p, d))?;
            if i < 3 {
                cx.eq("default", oneshot(d).as_bytes(), || m::hash(&m::P::default(), d))?;
            }
        }
        "param" => {
            let v = field_values(i);
            if v.is_empty() {
                return Ok(());
            }
            let d = mini_buf(s, cx, 3, 0);
            for k in [v.len() / 3, v.len() - 1] {
                let mut l = lib::Params::new();
                build(&mut l, &v[k]);
                cx.eq(&pdesc(&v[k]), l.hash(d).as_bytes(), || m::hash(&v[k], d))?;
            }
        }
        "state" | "write" => {
            let p = m::P { key: mini_key(s, i), ..Default::default() };
            let mut l = lib::Params::new();
            build(&mut l, &p);
            let mut x = Pair { l: L::S(l.to_state()), m: M::S(m::H::new(&p)), fed: 0, keyed: i % 7 < 2 };
            let (a, b) = (L[(i * 5) % 12], L[(i * 7 + i / 12) % 12]);
            let d = mini_buf(s, cx, a + b, i % 5);
            x.feed(&d[..a], if name == "write" { 1 + i % 4 } else { 0 })?;
            x.check_count(cx, "count")?;
            if i % 3 == 0 {
                x.check(cx, "mid-stream")?;
            }
            x.feed(&d[a..], if name == "write" { 1 + (i + 1) % 4 } else { 0 })?;
            x.check_count(cx, "count")?;
            x.check(cx, "digest")?;
        }
        "par" => {
            let n = PL[i % 15];
            let d = mini_buf(s, cx, n, 1 + i % 7);
            let key = mini_key(s, i / 15);
            let out = if i % 2 == 0 { OUT } else { 1 + i % OUT };
            let mut l = par::Params::new();
            l.key(&key).hash_length(out);
            cx.eq("hash", l.hash(d).as_bytes(), || m::par_hash(out, &key, d))?;
            if i < 2 {
                cx.eq("default", par_oneshot(d).as_bytes(), || m::par_hash(OUT, &[], d))?;
            }
        }
        "parstate" => {
            let key = mini_key(s, i / 15);
            let mut l = par::Params::new();
            l.key(&key);
            let mut x = Pair { l: L::P(l.to_state()), m: M::P(m::Par::new(OUT, &key)), fed: 0, keyed: !key.is_empty() };
            let (a, b) = (PL[i % 15], PL[(i * 4 + 7 + i / 15) % 15]);
            let d = mini_buf(s, cx, a + b, i % 5);
            x.feed(&d[..a], 0)?;
            x.check_count(cx, "count")?;
            if i % 4 == 0 {
                x.check(cx, "mid-stream")?;
            }
            x.feed(&d[a..], i % 3)?;
            x.check_count(cx, "count")?;
            x.check(cx, "digest")?;
        }
        "many" | "manylens" => {
            let n = if name == "many" { [1, 2, 3, 4, 5, 6, 7, 8, 9, 11][i % 10] } else { 2 + i % 7 };
            let mut jobs = vec![];
            for k in 0..n {
                let len = if name == "many" { L[(i / 10 * 3 + k / 3) % 8] } else { L[(k * (1 + i % 5) + i) % 12] };
                let p = m::P { key: mini_key(s, k * (i % 3)), last_node: k % 3 == 1, hash_length: if k % 2 == 0 { OUT } else { 1 + k }, ..Default::default() };
                let mut l = lib::Params::new();
                build(&mut l, &p);
                let d = mini_buf(s, cx, len, (k + i) % 9);
                jobs.push((HashManyJob::new(&l, d), p, d));
            }
            hash_many(jobs.iter_mut().map(|x| &mut x.0));
            for (j, p, d) in &jobs {
                cx.eq("job", j.to_hash().as_bytes(), || m::hash(p, d))?;
            }
        }
        "upd" => {
            let n = [1, 2, 3, 4, 5, 7, 8, 9][i % 8];
            let mut v = vec![];
            for k in 0..n {
                let p = m::P { key: mini_key(s, k * (i % 4)), last_node: k % 3 == 1, ..Default::default() };
                let mut l = lib::Params::new();
                build(&mut l, &p);
                let mut x = Pair { l: L::S(l.to_state()), m: M::S(m::H::new(&p)), fed: 0, keyed: false };
                let pre = mini_buf(s, cx, [0, 1, BLOCK - 1, BLOCK, 5][(k + i / 8) % 5], 1);
                x.feed(pre, 0)?;
                let d = mini_buf(s, cx, L[(i / 8 * 2 + k * (i % 3)) % 8], (k + i) % 9);
                v.push((x, d));
            }
            update_many(v.iter_mut().map(|(x, d)| match &mut x.l {
                L::S(l) => (l, &**d),
                _ => unreachable!(),
            }));
            for (x, d) in v.iter_mut() {
                x.model(d);
                x.check_count(cx, "count")?;
                x.check(cx, "digest")?;
            }
        }
        "hostile" => hostile(s, cx, 2 * BLOCK + 2, Some(i % 2 == 0))?,
        "eq" => {
            let d = mini_buf(s, cx, OUT, 0);
            let a: [u8; OUT] = d.try_into().unwrap();
            let h = lib::Hash::from(a);
            c11_view(&h, d, cx)?;
            let mut b = a;
            b[(i * 5) % OUT] ^= 1 << (i % 8);
            c11_pair(&h, &lib::Hash::from(b), cx)?;
            let n = [1, 2, 31, 5][i % 4].min(OUT);
            let short = lib::Params::new().hash_length(n).hash(&[]);
            c11_view(&short, &if crate::oracle_off() { short.as_bytes().to_vec() } else { m::hash(&m::P { hash_length: n, ..Default::default() }, &[]) }, cx)?;
            c11_pair(&h, &short, cx)?;
            c11_slice(&short, &d[..n], cx)?;
            c11_slice(&h, &d[..OUT - 1], cx)?;
            c11_slice(&h, &[], cx)?;
        }
        "life" => {
            let p = m::P { key: mini_key(s, i), last_node: i % 2 == 0, ..Default::default() };
            let mut l = lib::Params::new();
            build(&mut l, &p);
            let mut x = Pair { l: L::S(l.clone().to_state()), m: M::S(m::H::new(&p)), fed: 0, keyed: false };
            let d = mini_buf(s, cx, 2 * BLOCK, i);
            x.feed(&d[..BLOCK + i], 0)?;
            let mut y = x.clone();
            y.feed(&d[i..BLOCK], 0)?;
            if let (L::S(l), M::S(m)) = (&mut y.l, &mut y.m) {
                l.set_last_node(i % 2 == 1);
                m.last_node = i % 2 == 1;
            }
            y.check(cx, "the clone")?;
            y.check(cx, "the clone again")?;
            let mut z = Box::new(x); // moved
            z.feed(&d[..3], 0)?;
            z.check(cx, "the original")?;
            z.check_count(cx, "the original")?;
        }
        _ => {
            let key = mini_key(s, 1);
            let mut l = lib::Params::new();
            l.key(&key);
            let mut pl = par::Params::new();
            pl.key(&key);
            let d = mini_buf(s, cx, 5, 0);
            let t = match i {
                0 => format!("{:?}", l),
                1 => format!("{:?}", l.to_state().update(d)),
                2 => format!("{:?}", HashManyJob::new(&l, d)),
                _ => format!("{:?} {:?}", pl, pl.to_state().update(d)),
            };
            cx.saw(t.as_bytes());
        }
    }
    Ok(())
}
