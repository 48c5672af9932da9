//! C08: inputs longer than 2^32 bytes, as slices and as streams.
#![cfg(not(miri))]
use crate::mem::{Repeated, PAGE};
use crate::run::{esc, jlist, Args};
use crate::{hex, R};
use crate::at::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};

pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

pub mod b {
    use crate::model::b as m;
    use crate::props::b::{force_portable_par, lib, par, MAX_DEG, NAME, OUT, PNAME};
    include!("long_core.rs");
}
pub mod s {
    use crate::model::s as m;
    use crate::props::s::{force_portable_par, lib, par, MAX_DEG, NAME, OUT, PNAME};
    include!("long_core.rs");
}

fn cuts(extra: usize, unit: usize, base: usize) -> Vec<usize> {
    let mut v = vec![base - unit - 1, base - 1, base, base + 1, base + unit / 2, base + unit, base + 2 * unit + 1, base + extra - 777, base + extra];
    v.sort();
    v.dedup();
    v
}

/// `long [--all 1] [--only TEXT] [--wide bp|sp]`
pub fn main_long(a: &Args) -> i32 {
    let all = a.n("all", 0) == 1;
    let only = a.s("only").map(|x| x.to_string());
    let seed = a.n("seed", 1);
    let threads = a.n("threads", 8) as usize;
    // beyond 2^32 bytes in each leaf: BLAKE2bp (16 GiB) or BLAKE2sp (32 GiB)
    let wide = a.s("wide").map(|x| x.to_string());
    // no power of two divides the period up to 2^32: an index that wraps reads other bytes
    let base = match wide.as_deref() {
        Some("bp") => 1usize << 34,
        Some("sp") => 1usize << 35,
        _ => 1usize << 32,
    };
    let extra = 3 * 1024 * 1024 + 12345;
    let mut period = vec![0u8; PAGE * 257];
    let mut x = seed;
    for c in period.chunks_mut(8) {
        c.copy_from_slice(&crate::src::splitmix(&mut x).to_le_bytes());
    }
    let rep = Arc::new(Repeated::new(base + extra, &period));
    // a contiguous start is needed: content of the slice is what `Repeated` says, for library and model alike
    let want = |t: &str| only.as_deref().map_or(true, |o| t == o);
    type Out = Mutex<Vec<(String, Result<(), String>, f64)>>;
    let results: Arc<Out> = Arc::new(Mutex::new(vec![]));
    let t0 = std::time::Instant::now();
    let mut queue: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let cuts_b = Arc::new(cuts(extra, 128, base));
    let cuts_s = Arc::new(cuts(extra, 64, base));
    // tables are computed first, by the model
    let tabs: Arc<[OnceLock<Vec<Vec<u8>>>; 4]> = Arc::new([OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()]);
    let mut pending: Vec<(usize, String, Box<dyn FnOnce() -> R + Send>)> = vec![];
    macro_rules! fam {
        ($m:ident, $cuts:expr, $t:expr) => {
            for (kind, (name, f)) in $m::tasks(all) {
                if !want(&name) || wide.as_ref().map_or(name.ends_with("one update"), |w| !["one-shot", "one update"].iter().any(|k| name == format!("blake2{} {}", w, k))) {
                    continue;
                }
                let (rep, cuts, tabs) = (rep.clone(), $cuts.clone(), tabs.clone());
                pending.push(($t + kind, name, Box::new(move || f(&rep, &cuts, tabs[$t + kind].get().unwrap()))));
            }
        };
    }
    fam!(b, cuts_b, 0);
    fam!(s, cuts_s, 2);
    let needed: Vec<usize> = {
        let mut v: Vec<usize> = pending.iter().map(|p| p.0).collect();
        v.sort();
        v.dedup();
        v
    };
    {
        let hs: Vec<_> = needed
            .iter()
            .map(|t| {
                let (t, rep, tabs, cb, cs) = (*t, rep.clone(), tabs.clone(), cuts_b.clone(), cuts_s.clone());
                std::thread::spawn(move || {
                    let v = match t {
                        0 => b::prefixes(&rep, &cb, 0),
                        1 => b::prefixes(&rep, &cb, 1),
                        2 => s::prefixes(&rep, &cs, 0),
                        _ => s::prefixes(&rep, &cs, 1),
                    };
                    tabs[t].set(v).unwrap();
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    }
    let tmodel = t0.elapsed().as_secs_f64();
    // longest first
    pending.sort_by_key(|p| if p.1.contains("long lanes") { 0 } else if p.1.contains("portable") || p.1.contains("Write") { 1 } else { 2 });
    for (_, name, f) in pending {
        let results = results.clone();
        queue.push(Box::new(move || {
            let t = std::time::Instant::now();
            let r = crate::run::guarded(f);
            results.lock().unwrap().push((name, r, t.elapsed().as_secs_f64()));
        }));
    }
    let n = queue.len();
    let q: Arc<Mutex<Vec<Option<Box<dyn FnOnce() + Send>>>>> = Arc::new(Mutex::new(queue.into_iter().map(Some).collect()));
    let next = Arc::new(AtomicUsize::new(0));
    let hang = a.n("hang", 300) as f64;
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (q, next) = (q.clone(), next.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let f = q.lock().unwrap()[i].take().unwrap();
                let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
                let d2 = done.clone();
                let clock = crate::run::thread_cpu_clock();
                let c0 = crate::run::clock_s(clock);
                let wd = std::thread::spawn(move || {
                    while !d2.load(SeqCst) {
                        std::thread::sleep(std::time::Duration::from_millis(100));
                        if crate::run::clock_s(clock) - c0 > hang {
                            println!("HANG long-input task {} used more than {} s of CPU time", i, hang);
                            std::process::exit(12);
                        }
                    }
                });
                f();
                done.store(true, SeqCst);
                wd.join().unwrap();
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let res = results.lock().unwrap();
    let samples: Vec<String> = res.iter().map(|(n, r, t)| format!("{}: {} in {:.1}s", n, if r.is_ok() { "as the model" } else { "WRONG" }, t)).collect();
    println!(
        "STATS {{\"evaluations\":{},\"distinct\":{},\"states\":{},\"events\":{{\"digests compared\":{},\"bytes hashed by the library\":{}}},\"samples\":{},\"complete\":true,\"wall_s\":{:.1},\"model_s\":{:.1},\"mode\":\"long\"}}",
        n, n, cuts_b.len() + cuts_s.len(), EVENTS.load(SeqCst), BYTES.load(SeqCst), jlist(&samples), t0.elapsed().as_secs_f64(), tmodel
    );
    for (name, r, _) in res.iter() {
        if let Err(e) = r {
            println!("VIOLATION-REPORT {{\"prop\":\"C08\",\"mode\":\"long\",\"seed\":{},\"index\":0,\"only\":{},\"detail\":{},\"steps\":[]}}", seed, esc(name), esc(&format!("{}: {}", name, e)));
            return 10;
        }
    }
    0
}
