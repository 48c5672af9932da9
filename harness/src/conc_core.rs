// C14: operations that several threads perform at once. Included by conc::b and conc::s.
use crate::conc::Force;
use crate::{gen_len, hex, panics, Cx, Src, R};
use lib::many::{hash_many, update_many, HashManyJob};

/// objects every thread reads and none writes
pub struct Shared {
    params: Vec<(lib::Params, m::P)>,
    pars: Vec<(par::Params, m::P)>,
    pairs: Vec<(Pair, Vec<u8>)>,
    hashes: Vec<(lib::Hash, Vec<u8>)>,
    msgs: Vec<Vec<u8>>,
    dbg: Vec<String>,
}
impl Shared {
    pub fn new(s: &mut Src, cx: &mut Cx, n: usize) -> Shared {
        let msgs: Vec<Vec<u8>> = (0..n).map(|_| { let k = gen_len(s, STRIPE, cx.max_len); s.data(k) }).collect();
        let params: Vec<_> = (0..n).map(|_| gen_params(s)).collect();
        let pars: Vec<_> = (0..n).map(|_| gen_par_params(s)).collect();
        let mut pairs = vec![];
        for i in 0..n {
            let mut x = Pair::gen(s, cx, i % 3 == 2);
            let k = gen_len(s, BLOCK, cx.max_len);
            let d = s.data(k);
            let _ = x.feed(&d, 0);
            let w = x.want();
            pairs.push((x, w));
        }
        let hashes = (0..n).map(|i| {
            let w = pairs[i].1.clone();
            (pairs[i].0.digest(), w)
        }).collect();
        let dbg = params.iter().map(|p| format!("{:?}", p.0)).chain(pairs.iter().map(|p| dbg_pair(&p.0))).collect();
        Shared { params, pars, pairs, hashes, msgs, dbg }
    }
}
fn dbg_pair(p: &Pair) -> String {
    match &p.l {
        L::S(x) => format!("{:?}", x),
        L::P(x) => format!("{:?}", x),
    }
}

pub const KINDS: [&str; 14] = [
    "hash with a shared builder", "hasher from a shared builder", "clone of a shared builder changed", "parallel hash with a shared builder", "parallel hasher from a shared builder",
    "clone of a shared hasher fed", "finalize of a shared hasher", "shared hash read", "Debug of shared objects", "hash_many over own jobs", "update_many over clones", "own hasher",
    "illegal parameter refused", "one-shot functions and degree",
];
pub fn op(kind: usize, sh: &Shared, s: &mut Src, cx: &mut Cx) -> R {
    let n = sh.params.len();
    let msg = &sh.msgs[s.below(n)];
    match kind {
        0 => {
            let (l, p) = &sh.params[s.below(n)];
            cx.eq("hash with a shared builder", l.hash(msg).as_bytes(), || m::hash(p, msg))
        }
        1 => {
            let (l, p) = &sh.params[s.below(n)];
            let mut x = l.to_state();
            let k = s.range(0, msg.len());
            x.update(&msg[..k]);
            cx.eq("hasher from a shared builder, midway", x.finalize().as_bytes(), || m::hash(p, &msg[..k]))?;
            x.update(&msg[k..]);
            cx.eq("hasher from a shared builder", x.finalize().as_bytes(), || m::hash(p, msg))
        }
        2 => {
            let (l, p) = &sh.params[s.below(n)];
            let mut l2 = l.clone();
            let mut p2 = p.clone();
            let kl = s.range(0, KEY);
            p2.key = s.data(kl);
            p2.hash_length = s.range(1, OUT);
            p2.last_node = s.flip();
            l2.key(&p2.key).hash_length(p2.hash_length).last_node(p2.last_node);
            cx.eq("changed clone of a shared builder", l2.hash(msg).as_bytes(), || m::hash(&p2, msg))?;
            cx.eq("shared builder after its clone changed", l.hash(msg).as_bytes(), || m::hash(p, msg))
        }
        3 => {
            let (l, p) = &sh.pars[s.below(n)];
            cx.eq("parallel hash with a shared builder", l.hash(msg).as_bytes(), || m::par_hash(p.hash_length, &p.key, msg))
        }
        4 => {
            let (l, p) = &sh.pars[s.below(n)];
            let mut x = l.clone().to_state();
            let k = s.range(0, msg.len());
            x.update(&msg[..k]).update(&msg[k..]);
            cx.eq("parallel hasher from a shared builder", x.finalize().as_bytes(), || m::par_hash(p.hash_length, &p.key, msg))
        }
        5 => {
            let (p, _) = &sh.pairs[s.below(n)];
            let mut x = p.clone();
            let how = if s.chance(1, 4) { 1 + s.below(4) } else { 0 };
            x.feed(msg, how)?;
            x.check(cx, "clone of a shared hasher")?;
            x.check_count(cx, "clone of a shared hasher")
        }
        6 => {
            let (p, w) = &sh.pairs[s.below(n)];
            cx.eq("finalize of a shared hasher", p.digest().as_bytes(), || w.clone())?;
            p.check_count(cx, "shared hasher")
        }
        7 => {
            let (h, w) = &sh.hashes[s.below(n)];
            cx.eq("shared hash", h.as_bytes(), || w.clone())?;
            cx.eq("hex of a shared hash", h.to_hex().as_bytes(), || hex(w).into_bytes())?;
            let (g, v) = &sh.hashes[s.below(n)];
            if !crate::oracle_off() && ((h == g) != (w == v) || (h == &v[..]) != (w == v)) {
                return Err("shared hashes compare wrongly".into());
            }
            Ok(())
        }
        8 => {
            let i = s.below(2 * n);
            let t = if i < n { format!("{:?}", sh.params[i].0) } else { dbg_pair(&sh.pairs[i - n].0) };
            if t != sh.dbg[i] {
                return Err(format!("Debug of a shared object changed from {:?} to {:?}", sh.dbg[i], t));
            }
            Ok(())
        }
        9 => {
            let k = s.range(1, 2 * MAX_DEG + 2);
            let mut jobs = vec![];
            for _ in 0..k {
                let (l, p) = &sh.params[s.below(n)];
                let d = &sh.msgs[s.below(n)];
                let d = &d[..s.range(0, d.len().min(9 * BLOCK))];
                jobs.push((HashManyJob::new(l, d), p, d));
            }
            hash_many(jobs.iter_mut().map(|x| &mut x.0));
            for (j, p, d) in &jobs {
                cx.eq("job", j.to_hash().as_bytes(), || m::hash(p, d))?;
            }
            Ok(())
        }
        10 => {
            let k = s.range(1, 2 * MAX_DEG + 2);
            let mut v: Vec<(Pair, &[u8])> = vec![];
            while v.len() < k {
                let (p, _) = &sh.pairs[s.below(n)];
                let d = &sh.msgs[s.below(n)];
                let d = &d[..s.range(0, d.len().min(9 * BLOCK))];
                if p.parallel() {
                    let (l, q) = &sh.params[s.below(n)];
                    v.push((Pair { l: L::S(l.to_state()), m: M::S(m::H::new(q)), fed: 0, keyed: !q.key.is_empty() }, d));
                } else {
                    v.push((p.clone(), d));
                }
            }
            update_many(v.iter_mut().map(|(x, d)| match &mut x.l {
                L::S(l) => (l, &**d),
                _ => unreachable!(),
            }));
            for (x, d) in v.iter_mut() {
                x.model(d);
                x.check(cx, "hasher after update_many")?;
                x.check_count(cx, "hasher after update_many")?;
            }
            Ok(())
        }
        11 => {
            let par = s.flip();
            let mut x = Pair::gen(s, cx, par);
            for _ in 0..s.range(1, 4) {
                let d = &sh.msgs[s.below(n)];
                x.feed(d, 0)?;
                if s.flip() {
                    x.check(cx, "own hasher")?;
                }
            }
            x.check_count(cx, "own hasher")?;
            x.check(cx, "own hasher")
        }
        12 => {
            // a refusal on one thread must not disturb the others (or this one's next call)
            let which = s.below(4);
            let refused = panics(|| {
                let mut l = lib::Params::new();
                match which {
                    0 => { l.hash_length(OUT + 1); }
                    1 => { l.key(&[0; KEY + 1]); }
                    2 => { l.salt(&[0; SALT + 1]); }
                    _ => { par::Params::new().hash_length(0); }
                }
            });
            if !refused {
                return Err("an illegal parameter was accepted".into());
            }
            cx.eq("hash after a refusal", oneshot(msg).as_bytes(), || m::hash(&m::P::default(), msg))
        }
        _ => {
            let d = lib::many::degree();
            if d == 0 || d > lib::many::MAX_DEGREE {
                return Err(format!("degree {}", d));
            }
            cx.eq("one-shot", oneshot(msg).as_bytes(), || m::hash(&m::P::default(), msg))?;
            cx.eq("parallel one-shot", par_oneshot(msg).as_bytes(), || m::par_hash(OUT, &[], msg))
        }
    }
}

/// one step in the life of a hasher that threads hand to one another
pub fn step(x: &mut Pair, s: &mut Src, cx: &mut Cx) -> R {
    match s.below(8) {
        0 => x.check(cx, "handed-over hasher"),
        1 => x.check_count(cx, "handed-over hasher"),
        2 => {
            let y = x.clone();
            *x = y;
            Ok(())
        }
        3 => match (&mut x.l, &mut x.m) {
            (L::S(l), M::S(h)) => {
                let v = s.flip();
                l.set_last_node(v);
                h.last_node = v;
                Ok(())
            }
            _ => Ok(()),
        },
        _ => {
            let n = gen_len(s, BLOCK, cx.max_len.min(5000));
            let d = s.data(n);
            let how = if s.chance(1, 5) { 1 + s.below(4) } else { 0 };
            x.feed(&d, how)?;
            Ok(())
        }
    }
}

/// neighbouring hashers and jobs of one array, a chunk per thread
pub fn split(threads: usize, seed: u64, maxlen: usize, enter: &(dyn Fn(usize) + Sync)) -> R {
    let mut s = Src::rng(seed);
    let mut cx = Cx::new(crate::Place::Heap, maxlen);
    let data: Vec<Vec<u8>> = (0..threads * 5).map(|_| { let n = gen_len(&mut s, BLOCK, maxlen); s.data(n) }).collect();
    let params: Vec<_> = (0..threads * 5).map(|_| gen_params(&mut s)).collect();
    let mut jobs: Vec<HashManyJob> = params.iter().zip(&data).map(|(p, d)| HashManyJob::new(&p.0, d)).collect();
    let mut xs: Vec<Pair> = (0..threads * 5).map(|_| Pair::gen(&mut s, &mut cx, false)).collect();
    let res: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs.chunks_mut(5).zip(xs.chunks_mut(5)).enumerate().map(|(w, (js, xs))| {
            let f = Force::new((js, xs));
            let data = &data;
            sc.spawn(move || {
                let (js, xs) = f.take();
                crate::run::guarded(|| {
                    enter(w);
                    hash_many(js.iter_mut());
                    update_many(xs.iter_mut().enumerate().map(|(i, x)| match &mut x.l {
                        L::S(l) => (l, &data[w * 5 + i][..]),
                        _ => unreachable!(),
                    }));
                    Ok(())
                })
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for r in res {
        r?;
    }
    for (i, j) in jobs.iter().enumerate() {
        cx.eq("job of a shared array", j.to_hash().as_bytes(), || m::hash(&params[i].1, &data[i]))?;
    }
    for (i, x) in xs.iter_mut().enumerate() {
        x.model(&data[i]);
        x.check(&mut cx, "hasher of a shared array")?;
    }
    Ok(())
}

/// the very first thing a thread does with the library; nothing has been called before
pub fn first(kind: usize, msg: &[u8], want: &[Vec<u8>; 3], seen_degree: &std::sync::atomic::AtomicUsize) -> R {
    let same = |what: &str, got: &[u8], w: &[u8]| if got == w { Ok(()) } else { Err(format!("{} on first use: got {} want {}", what, hex(got), hex(w))) };
    match kind % 8 {
        0 => same("one-shot", oneshot(msg).as_bytes(), &want[0]),
        1 => same("parallel one-shot", par_oneshot(msg).as_bytes(), &want[1]),
        2 => same("hasher", lib::State::new().update(msg).finalize().as_bytes(), &want[0]),
        3 => same("parallel hasher", par::State::new().update(msg).finalize().as_bytes(), &want[1]),
        4 => {
            let p = lib::Params::new();
            let mut js: Vec<HashManyJob> = (0..MAX_DEG + 1).map(|_| HashManyJob::new(&p, msg)).collect();
            hash_many(js.iter_mut());
            for j in &js {
                same("job", j.to_hash().as_bytes(), &want[0])?;
            }
            Ok(())
        }
        5 => {
            let mut xs: Vec<lib::State> = (0..MAX_DEG + 1).map(|_| lib::State::new()).collect();
            update_many(xs.iter_mut().map(|x| (x, msg)));
            for x in &xs {
                same("update_many", x.finalize().as_bytes(), &want[0])?;
            }
            Ok(())
        }
        6 => {
            let d = lib::many::degree();
            seen_degree.store(d, std::sync::atomic::Ordering::Relaxed);
            if d == 0 || d > lib::many::MAX_DEGREE { Err(format!("degree {} on first use", d)) } else { Ok(()) }
        }
        _ => same("keyed hash", lib::Params::new().key(b"key").hash(msg).as_bytes(), &want[2]),
    }
}
pub fn first_wants(msg: &[u8]) -> [Vec<u8>; 3] {
    [m::hash(&m::P::default(), msg), m::par_hash(OUT, &[], msg), m::hash(&m::P { key: b"key".to_vec(), ..Default::default() }, msg)]
}

pub fn types() -> Vec<(&'static str, bool, bool)> {
    crate::probe_types![lib::Params, lib::State, lib::Hash, HashManyJob<'static>, par::Params, par::State]
}

/// A call prepared with its expected results, so that nothing but the library runs between calls.
pub struct Call {
    kind: usize,
    l: lib::Params,
    p: par::Params,
    key: Vec<u8>,
    len: usize,
    msg: Vec<u8>,
    cut: usize,
    n: usize,
    want: Vec<u8>,
    pwant: Vec<u8>,
    lane_wants: Vec<Vec<u8>>,
    text: String,
}
pub const HAMMERS: usize = 8;
pub const HAMMER_NAMES: [&str; HAMMERS] = ["hash", "hasher", "hash_many", "update_many", "parallel hash", "parallel hasher", "builder and hash", "hash value"];
impl Call {
    pub fn gen(kind: usize, s: &mut Src, keys: &[Vec<u8>]) -> Call {
        let key = s.pick(keys);
        let len = if s.flip() { OUT } else { s.range(1, OUT) };
        let mut p = m::P { key: key.clone(), hash_length: len, ..Default::default() };
        if s.chance(1, 4) {
            p.salt = s.data(SALT);
            p.last_node = s.flip();
        }
        let mut l = lib::Params::new();
        build(&mut l, &p);
        let mut pp = par::Params::new();
        pp.hash_length(len).key(&key);
        let k = { let t_ = [0, 1, BLOCK - 1, BLOCK, BLOCK + 1, 3 * BLOCK + 7, STRIPE + 1]; s.pick(&t_) };
        let msg = s.data(k);
        let n = s.range(1, MAX_DEG + 2);
        let want = m::hash(&p, &msg);
        let lane_wants = (0..n).map(|i| m::hash(&p, &msg[..k * i / n])).collect();
        let pwant = m::par_hash(len, &key, &msg);
        let text = format!("{:?}", l.hash(&msg));
        Call { kind, l, p: pp, key, len, cut: s.range(0, k), n, lane_wants, pwant, want, msg, text }
    }
    pub fn go(&self) -> R {
        let ok = |got: &[u8], want: &[u8]| if got == want { Ok(()) } else { Err(format!("{}: got {} want {} (key {} message of {})", HAMMER_NAMES[self.kind], hex(got), hex(want), hex(&self.key), self.msg.len())) };
        match self.kind {
            0 => ok(self.l.hash(&self.msg).as_bytes(), &self.want),
            1 => {
                let mut x = self.l.to_state();
                x.update(&self.msg[..self.cut]).update(&self.msg[self.cut..]);
                ok(x.finalize().as_bytes(), &self.want)
            }
            2 => {
                // (one by one and in a batch)
                let mut j = HashManyJob::new(&self.l, &self.msg);
                hash_many(std::iter::once(&mut j));
                ok(j.to_hash().as_bytes(), &self.want)?;
                let k = self.msg.len();
                let mut js: [Option<HashManyJob>; MAX_DEG + 2] = Default::default();
                for (i, j) in js[..self.n].iter_mut().enumerate() {
                    *j = Some(HashManyJob::new(&self.l, &self.msg[..k * i / self.n]));
                }
                hash_many(js[..self.n].iter_mut().flatten());
                for (j, w) in js.iter().flatten().zip(&self.lane_wants) {
                    ok(j.to_hash().as_bytes(), w)?;
                }
                Ok(())
            }
            3 => {
                let k = self.msg.len();
                let mut xs: [Option<lib::State>; MAX_DEG + 2] = Default::default();
                for x in xs[..self.n].iter_mut() {
                    *x = Some(self.l.to_state());
                }
                update_many(xs[..self.n].iter_mut().flatten().enumerate().map(|(i, x)| (x, &self.msg[..k * i / self.n])));
                for (x, w) in xs.iter().flatten().zip(&self.lane_wants) {
                    ok(x.finalize().as_bytes(), w)?;
                }
                Ok(())
            }
            4 => ok(self.p.hash(&self.msg).as_bytes(), &self.pwant),
            5 => {
                let mut x = self.p.to_state();
                x.update(&self.msg[..self.cut]).update(&self.msg[self.cut..]);
                ok(x.finalize().as_bytes(), &self.pwant)
            }
            6 => {
                let mut p = par::Params::new();
                ok(p.key(&self.key).hash_length(self.len).hash(&self.msg).as_bytes(), &self.pwant)?;
                let p = self.l.clone();
                ok(p.hash(&self.msg).as_bytes(), &self.want)
            }
            _ => {
                let h = self.l.hash(&self.msg);
                let x = h.to_hex();
                if h != self.want[..] || h != h.clone() || *x != *hex(&self.want) {
                    return Err(format!("hash value: {} is not {}", &*x, hex(&self.want)));
                }
                if format!("{:?}", h) != self.text {
                    return Err(format!("hash value: Debug is {:?}, was {}", h, self.text));
                }
                Ok(())
            }
        }
    }
}

pub fn degree() -> usize {
    lib::many::degree()
}
