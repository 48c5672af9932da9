//! C14: many threads at once.
use crate::run::{case_seed, esc, guarded, Args};
use crate::*;
use crate::at::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    pub fn new(t: T) -> Force<T> {
        Force(t)
    }
    pub fn take(self) -> T {
        self.0
    }
    pub fn get(&self) -> &T {
        &self.0
    }
}

/// whether each type is Send and Sync, found out without failing to compile when it is not
#[macro_export]
macro_rules! probe_types {
    ($($t:ty),*) => {{
        use std::marker::PhantomData;
        struct W<T>(#[allow(dead_code)] PhantomData<T>);
        trait No { const SEND: bool = false; const SYNC: bool = false; }
        impl<T> No for W<T> {}
        struct WS<T>(#[allow(dead_code)] PhantomData<T>);
        impl<T> No for WS<T> {}
        #[allow(dead_code)]
        impl<T: Send> W<T> { const SEND: bool = true; }
        #[allow(dead_code)]
        impl<T: Sync> WS<T> { const SYNC: bool = true; }
        vec![$((stringify!($t), W::<$t>::SEND, WS::<$t>::SYNC)),*]
    }};
}

macro_rules! family {
    ($n:ident) => {
        pub mod $n {
            use crate::props::$n::*;
            include!("conc_core.rs");
        }
    };
}
family!(b);
family!(s);

const W: usize = 64;
static ACTIVE: [AtomicU32; W] = [const { AtomicU32::new(0) }; W];
static PROGRESS: [AtomicU64; W] = [const { AtomicU64::new(0) }; W];

struct Seen {
    pairs: HashSet<(u32, u32)>,
    overlaps: u64,
    ops: u64,
}
impl Seen {
    fn new() -> Seen {
        Seen { pairs: HashSet::new(), overlaps: 0, ops: 0 }
    }
    /// what else is running as `kind` starts (relaxed accesses: they order nothing)
    fn enter(&mut self, w: usize, kind: u32) {
        self.ops += 1;
        ACTIVE[w % W].store(kind + 1, Relaxed);
        for (i, a) in ACTIVE.iter().enumerate() {
            let k = a.load(Relaxed);
            if i != w % W && k != 0 {
                self.overlaps += 1;
                self.pairs.insert((kind.min(k - 1), kind.max(k - 1)));
            }
        }
    }
    fn leave(&mut self, w: usize) {
        ACTIVE[w % W].store(0, Relaxed);
        PROGRESS[w % W].fetch_add(1, Relaxed);
    }
}

/// No thread gets on and none uses the CPU: a deadlock. No thread gets on and they use it plenty: a livelock.
#[cfg(not(miri))]
fn watchdog() {
    std::thread::spawn(|| {
        let cpu = || run::clock_s(libc::CLOCK_PROCESS_CPUTIME_ID);
        let sum = || PROGRESS.iter().map(|p| p.load(Relaxed)).sum::<u64>();
        let (mut last, mut since, mut at) = (sum(), 0u32, cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            let n = sum();
            if n != last {
                last = n;
                since = 0;
                at = cpu();
                continue;
            }
            since += 1;
            let waiting = run::all_waiting();
            if since > 40 && waiting && cpu() - at < 0.5 {
                println!("HANG deadlock: no thread has moved for {} s and none uses the CPU", since);
                std::process::exit(12);
            }
            if cpu() - at > 1200.0 {
                println!("HANG livelock: {:.0} s of CPU time without a completed call", cpu() - at);
                std::process::exit(12);
            }
        }
    });
}
fn report(seen: &Seen, mode: &str, seed: u64, complete: bool, err: Option<(u64, String)>) -> i32 {
    let name = |k: u32| {
        let k = k as usize;
        if k >= 100 {
            let n = k - 100;
            return if n < b::HAMMERS { format!("blake2b: {}", b::HAMMER_NAMES[n]) } else { format!("blake2s: {}", s::HAMMER_NAMES[n - b::HAMMERS]) };
        }
        if k < 14 { format!("blake2b: {}", b::KINDS[k]) } else if k < 28 { format!("blake2s: {}", s::KINDS[k - 14]) } else { "handed-over hasher".into() }
    };
    let mut v: Vec<_> = seen.pairs.iter().collect();
    v.sort();
    let sample: Vec<String> = v.iter().take(3).map(|(a, b)| format!("\"{} || {}\"", name(*a), name(*b))).collect();
    println!(
        "STATS {{\"evaluations\":{},\"distinct\":{},\"states\":{},\"events\":{{\"operations\":{},\"overlapping operations seen\":{},\"distinct overlapping pairs of kinds\":{}}},\"samples\":[{}],\"complete\":{},\"mode\":{}}}",
        seen.ops, seen.pairs.len(), seen.pairs.len(), seen.ops, seen.overlaps, seen.pairs.len(), sample.join(","), complete, esc(mode)
    );
    if let Some((i, e)) = err {
        println!("VIOLATION-REPORT {{\"prop\":\"C14\",\"mode\":{},\"seed\":{},\"index\":{},\"detail\":{},\"steps\":[]}}", esc(mode), seed, i, esc(&e));
        return 10;
    }
    0
}

/// `conc --mode first|rounds|hammer|types --threads T --rounds N --ops M --seed S --secs X`
pub fn main_conc(a: &Args) -> i32 {
    let seed = a.n("seed", 1);
    let threads = a.n("threads", 8) as usize;
    match a.s("mode").unwrap_or("rounds") {
        "types" => {
            for (f, v) in [("blake2b_simd", b::types()), ("blake2s_simd", s::types())] {
                for (t, send, sync) in v {
                    println!("TYPE {} {} {} {}", f, t.replace("lib::", "").replace("par::", "parallel "), send, sync);
                }
            }
            0
        }
        "plant" => {
            // a race ThreadSanitizer must see
            static mut X: u64 = 0;
            let ready = AtomicU32::new(0);
            std::thread::scope(|sc| {
                for _ in 0..4 {
                    sc.spawn(|| {
                        // (relaxed: orders nothing)
                        ready.fetch_add(1, Relaxed);
                        let t = std::time::Instant::now();
                        while ready.load(Relaxed) < 4 && t.elapsed().as_secs() < 20 {
                            std::hint::spin_loop();
                        }
                        for _ in 0..100_000 {
                            unsafe {
                                let p = &raw mut X;
                                p.write_volatile(p.read_volatile() + 1)
                            }
                        }
                    });
                }
            });
            0
        }
        "first" => {
            // the messages are known, the model is not the library: nothing has been initialised yet
            let n = a.n("len", 1500) as usize;
            let msg: Vec<u8> = (0..n).map(|i| (i as u64 * 7 + seed) as u8).collect();
            let (wb, ws) = (b::first_wants(&msg), s::first_wants(&msg));
            let degrees: Vec<[AtomicUsize; 2]> = (0..threads).map(|_| [AtomicUsize::new(0), AtomicUsize::new(0)]).collect();
            let ready = AtomicU32::new(0);
            let errs = Mutex::new(None);
            let small = n < 200;
            #[cfg(not(miri))]
            watchdog();
            std::thread::scope(|sc| {
                for w in 0..threads {
                    let (ready, errs, msg, wb, ws, deg) = (&ready, &errs, &msg, &wb, &ws, &degrees[w]);
                    sc.spawn(move || {
                        ready.fetch_add(1, Relaxed);
                        while (ready.load(Relaxed) as usize) < threads {
                            if cfg!(miri) { std::thread::yield_now() } else { std::hint::spin_loop() }
                        }
                        let k0 = (case_seed(seed, "first", w as u64 % (1 + seed % threads as u64)) % 16) as usize;
                        for j in 0..(if small { 2 } else { 16 }) {
                            let k = (k0 + j * 5) % 16;
                            let r = guarded(|| if k < 8 { b::first(k, msg, wb, &deg[0]) } else { s::first(k - 8, msg, ws, &deg[1]) });
                            PROGRESS[w % W].fetch_add(1, Relaxed);
                            if let Err(e) = r {
                                *errs.lock().unwrap() = Some((w as u64, e));
                                return;
                            }
                        }
                    });
                }
            });
            let mut e = errs.into_inner().unwrap();
            // what each was told in the rush is what everybody is told afterwards
            let now = [b::degree(), s::degree()];
            for (w, d) in degrees.iter().enumerate() {
                for f in 0..2 {
                    let d = d[f].load(Relaxed);
                    if d != 0 && d != now[f] {
                        e.get_or_insert((w as u64, format!("degree() of {} was {} on first use by {} threads, and is {}", ["blake2b", "blake2s"][f], d, threads, now[f])));
                    }
                }
            }
            let mut seen = Seen::new();
            seen.ops = threads as u64 * if small { 2 } else { 16 };
            report(&seen, "first", seed, true, e)
        }
        "hammer" => hammer(a, seed, threads),
        _ => rounds(a, seed, threads),
    }
}

fn rounds(a: &Args, seed: u64, threads: usize) -> i32 {
    let n = a.n("rounds", 20);
    let ops = a.n("ops", 100);
    let secs = a.n("secs", 1000) as f64;
    let maxlen = a.n("maxlen", 6000) as usize;
    let objs = a.n("objects", 6) as usize;
    let t0 = std::time::Instant::now();
    #[cfg(not(miri))]
    watchdog();
    let mut all = Seen::new();
    let mut err: Option<(u64, String)> = None;
    // hashers that outlive the threads that made them
    let pool_b: Vec<Mutex<Option<Force<(props::b::Pair, u64)>>>> = (0..objs).map(|_| Mutex::new(None)).collect();
    let pool_s: Vec<Mutex<Option<Force<(props::s::Pair, u64)>>>> = (0..objs).map(|_| Mutex::new(None)).collect();
    let mut done = 0;
    for round in 0..n {
        if t0.elapsed().as_secs_f64() > secs || err.is_some() {
            break;
        }
        let mut s0 = Src::rng(case_seed(seed, "conc", round));
        let mut cx0 = Cx::new(Place::Heap, maxlen);
        let shb = Force::new(guarded_v(|| b::Shared::new(&mut s0, &mut cx0, objs)));
        let shs = Force::new(guarded_v(|| s::Shared::new(&mut s0, &mut cx0, objs)));
        let (rb, rs) = (&shb, &shs);
        let focus = s0.below(3);
        let hot = s0.below(28) as u32;
        let (pool_b, pool_s) = (&pool_b, &pool_s);
        let res: Vec<(Seen, R)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|w| {
                sc.spawn(move || {
                    let mut seen = Seen::new();
                    let mut cx = Cx::new(Place::Heap, maxlen);
                    let mut s = Src::rng(case_seed(seed, "thread", round * 1000 + w as u64));
                    for i in 0..ops {
                        cx.begin();
                        let hand = s.chance(1, 6);
                        // some rounds are about one kind of operation against all others, or against itself
                        let kind = match focus {
                            0 => s.below(28) as u32,
                            1 if w % 2 == 0 => hot,
                            1 => s.below(28) as u32,
                            _ if s.chance(3, 4) => hot,
                            _ => s.below(28) as u32,
                        };
                        let r = if hand {
                            guarded(|| {
                                if s.flip() {
                                    let slot = &pool_b[s.below(pool_b.len())];
                                    let taken = slot.lock().unwrap().take();
                                    let (mut x, mut life) = match taken {
                                        Some(f) => f.take(),
                                        None => { let par = s.flip(); (props::b::Pair::gen(&mut s, &mut cx, par), 0) }
                                    };
                                    seen.enter(w, 28);
                                    let r = b::step(&mut x, &mut s, &mut cx);
                                    seen.leave(w);
                                    life += 1;
                                    *slot.lock().unwrap() = if life > 40 { None } else { Some(Force::new((x, life))) };
                                    r
                                } else {
                                    let slot = &pool_s[s.below(pool_s.len())];
                                    let taken = slot.lock().unwrap().take();
                                    let (mut x, mut life) = match taken {
                                        Some(f) => f.take(),
                                        None => { let par = s.flip(); (props::s::Pair::gen(&mut s, &mut cx, par), 0) }
                                    };
                                    seen.enter(w, 28);
                                    let r = s::step(&mut x, &mut s, &mut cx);
                                    seen.leave(w);
                                    life += 1;
                                    *slot.lock().unwrap() = if life > 40 { None } else { Some(Force::new((x, life))) };
                                    r
                                }
                            })
                        } else {
                            seen.enter(w, kind);
                            let r = guarded(|| if kind < 14 { b::op(kind as usize, rb.get(), &mut s, &mut cx) } else { s::op(kind as usize - 14, rs.get(), &mut s, &mut cx) });
                            seen.leave(w);
                            r
                        };
                        if let Err(e) = r {
                            return (seen, Err(format!("{} threads, round {}, thread {}, operation {}: {}", threads, round, w, i, e)));
                        }
                        match s.below(40) {
                            0 => std::thread::yield_now(),
                            1 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(s.below(200) as u64)),
                            _ => {}
                        }
                    }
                    (seen, Ok(()))
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Seen::new(), Err("a thread died".into())))).collect()
        });
        for (s, r) in res {
            all.pairs.extend(s.pairs);
            all.overlaps += s.overlaps;
            all.ops += s.ops;
            if let Err(e) = r {
                err.get_or_insert((round, e));
            }
        }
        // (afterwards: the shared objects are what they were, single-threaded)
        let r = guarded(|| b::split(threads, case_seed(seed, "split", round), maxlen, &|_| {}))
            .and_then(|_| guarded(|| s::split(threads, case_seed(seed, "split", round), maxlen, &|_| {})));
        all.ops += 20 * threads as u64;
        if let Err(e) = r {
            err.get_or_insert((round, format!("{} threads, round {}: {}", threads, round, e)));
        }
        PROGRESS[0].fetch_add(1, Relaxed);
        done += 1;
    }
    report(&all, "rounds", seed, done == n, err)
}
/// Every thread repeats a few prepared calls, different keys side by side, with nothing in between.
fn hammer(a: &Args, seed: u64, threads: usize) -> i32 {
    let secs = a.n("secs", 5) as f64;
    let n = a.n("rounds", 1000);
    let iters = a.n("ops", 400);
    let t0 = std::time::Instant::now();
    #[cfg(not(miri))]
    watchdog();
    let mut seen = Seen::new();
    let mut err = None;
    let mut done = 0;
    for round in 0..n {
        if t0.elapsed().as_secs_f64() > secs || err.is_some() {
            break;
        }
        let mut s0 = Src::rng(case_seed(seed, "hammer", round));
        let one = s0.flip().then(|| s0.below(2 * b::HAMMERS));
        // keys of one length, of any length, one key, none
        let kl = s0.range(1, 32);
        let keys: Vec<Vec<u8>> = (0..s0.range(1, 4)).map(|i| match s0.below(8) { 0 => vec![], 1 => { let n = s0.range(1, 32); s0.data(n) }, _ => { let mut k = vec![i as u8; kl]; k[kl - 1] = s0.below(256) as u8; k } }).collect();
        let go = AtomicU32::new(0);
        let (kinds, res): (Vec<Vec<usize>>, Vec<R>) = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|w| {
                let (go, keys) = (&go, &keys);
                sc.spawn(move || {
                    let mut s = Src::rng(case_seed(seed, "hammer thread", round * 1000 + w as u64));
                    let kinds: Vec<usize> = (0..s.range(1, 3)).map(|_| one.unwrap_or_else(|| s.below(2 * b::HAMMERS))).collect();
                    let (mut cb, mut cs) = (vec![], vec![]);
                    for k in &kinds {
                        if *k < b::HAMMERS { cb.push(b::Call::gen(*k, &mut s, keys)) } else { cs.push(s::Call::gen(*k - b::HAMMERS, &mut s, keys)) }
                    }
                    go.fetch_add(1, Relaxed);
                    while (go.load(Relaxed) as usize) < threads {
                        if cfg!(miri) || threads > 8 { std::thread::yield_now() } else { std::hint::spin_loop() }
                    }
                    let r = guarded(|| {
                        for _ in 0..iters {
                            for c in &cb { c.go()?; }
                            for c in &cs { c.go()?; }
                        }
                        Ok(())
                    });
                    PROGRESS[w % W].fetch_add(1, Relaxed);
                    (kinds, r.map_err(|e| format!("{} threads, round {}, thread {}: {}", threads, round, w, e)))
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (vec![], Err("a thread died".into())))).unzip()
        });
        for r in res {
            if let Err(e) = r {
                err.get_or_insert((round, e));
            }
        }
        for w in 0..kinds.len() {
            for v in 0..w {
                for i in &kinds[w] {
                    for j in &kinds[v] {
                        seen.pairs.insert((100 + *i.min(j) as u32, 100 + *i.max(j) as u32));
                    }
                }
            }
        }
        seen.ops += threads as u64 * iters;
        done += 1;
    }
    report(&seen, "hammer", seed, done == n || err.is_some(), err)
}
fn guarded_v<T>(f: impl FnOnce() -> T) -> T {
    f()
}
