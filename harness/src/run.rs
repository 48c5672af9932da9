//! Runs cases on several threads, records what was observed, writes replay files.
use crate::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use crate::at::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

thread_local! {
    pub static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub static DENSE: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if QUIET.with(|q| q.get()) > 0 {
            return;
        }
        let msg = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// runs one case; a panic of the code under test is a failure of the case
pub fn guarded(f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            QUIET.with(|q| q.set(0));
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("panic: {}", m))
        }
    }
}

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn parse(v: &[String]) -> Args {
        let mut m = HashMap::new();
        let mut i = 0;
        while i < v.len() {
            let k = v[i].trim_start_matches("--").to_string();
            let val = v.get(i + 1).cloned().unwrap_or_default();
            m.insert(k, val);
            i += 2;
        }
        Args(m)
    }
    pub fn s(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|x| x.as_str())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        match self.s(k) {
            None => d,
            Some(v) => v.parse().unwrap_or_else(|_| {
                eprintln!("HARNESS-ERROR bad --{} {}", k, v);
                std::process::exit(3)
            }),
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

pub fn load_common(a: &Args) {
    if let Some(f) = a.s("lits") {
        let v: Vec<u64> = std::fs::read_to_string(f).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let _ = LITS.set(v);
    }
    if a.s("oracle") == Some("off") {
        ORACLE_OFF.store(true, Relaxed);
    }
    if let Some(l) = a.s("simd") {
        let d: i64 = a.s("cachedelta").and_then(|x| x.parse().ok()).unwrap_or(0);
        if let Err(e) = simd::restrict(l, d) {
            println!("SIMD-RESTRICT-FAILED {}", e);
            std::process::exit(3);
        }
    }
    DENSE.store(a.n("dense", 0) == 1, Relaxed);
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ i.wrapping_mul(0xd1342543de82ef95);
    for b in prop.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix_once(x)
}
fn splitmix_once(x: u64) -> u64 {
    let mut y = x;
    crate::src::splitmix(&mut y)
}

/// Shared crumb file: which case each worker is in, so a crash can be attributed and replayed.
pub struct Crumbs(*mut u64);
unsafe impl Send for Crumbs {}
unsafe impl Sync for Crumbs {}
impl Crumbs {
    pub fn open(path: Option<&str>) -> Crumbs {
        #[cfg(not(miri))]
        if let Some(p) = path {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
            f.set_len(4096).unwrap();
            use std::os::fd::AsRawFd;
            let m = unsafe {
                libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
            };
            assert!(m != libc::MAP_FAILED);
            return Crumbs(m as *mut u64);
        }
        let _ = path;
        let b = Box::leak(vec![0u64; 512].into_boxed_slice());
        Crumbs(b.as_mut_ptr())
    }
    pub fn set(&self, w: usize, active: u64, id: u64) {
        unsafe {
            self.0.add(2 * w + 1).write_volatile(id);
            self.0.add(2 * w).write_volatile(active);
        }
    }
}

#[cfg(not(miri))]
pub fn thread_cpu_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}
#[cfg(not(miri))]
pub fn clock_s(c: libc::clockid_t) -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    if unsafe { libc::clock_gettime(c, &mut t) } != 0 {
        return 0.0;
    }
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub stats: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violation: Option<(u64, String, Vec<String>)>,
    pub wall: f64,
    pub exhausted: bool,
}
impl Totals {
    pub fn json(&self, extra: &str) -> String {
        let st: Vec<String> = self.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        format!(
            "{{\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"states\":{},\"events\":{{{}}},\"samples\":{},\"complete\":{},\"wall_s\":{:.2}{}}}",
            self.evaluations, self.nontrivial, self.distinct.len(), self.states.len(), st.join(","), jlist(&self.samples), self.exhausted, self.wall, extra
        )
    }
}

pub struct Plan {
    pub threads: usize,
    pub cases: u64,
    pub secs: f64,
    pub first: u64,
    pub place: Place,
    pub max_len: usize,
    pub hang_s: f64,
}

/// `run(i, cx)` executes case number i.
pub fn drive(plan: &Plan, crumbs: Arc<Crumbs>, run: Arc<dyn Fn(u64, &mut Cx) -> R + Send + Sync>) -> Totals {
    let next = Arc::new(AtomicU64::new(plan.first));
    let stop = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let tot = Arc::new(Mutex::new(Totals::default()));
    #[cfg(not(miri))]
    let slots: Arc<Vec<(AtomicU64, AtomicU64, Mutex<Option<libc::clockid_t>>)>> =
        Arc::new((0..plan.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), Mutex::new(None))).collect());
    let mut hs = vec![];
    for w in 0..plan.threads {
        let (next, stop, tot, run, crumbs) = (next.clone(), stop.clone(), tot.clone(), run.clone(), crumbs.clone());
        let (cases, secs, place, max_len) = (plan.cases, plan.secs, plan.place, plan.max_len);
        #[cfg(not(miri))]
        let slots = slots.clone();
        let first = plan.first;
        let body = move || {
            #[cfg(not(miri))]
            {
                *slots[w].2.lock().unwrap() = Some(thread_cpu_clock());
            }
            let mut cx = Cx::new(place, max_len);
            let mut n = 0u64;
            let mut nt = 0u64;
            let mut distinct = HashSet::new();
            let mut samples = vec![];
            while !stop.load(Relaxed) {
                if n % 16 == 0 && t0.elapsed().as_secs_f64() > secs {
                    break;
                }
                let i = next.fetch_add(1, Relaxed);
                if i >= first + cases {
                    break;
                }
                crumbs.set(w, 1, i);
                #[cfg(not(miri))]
                {
                    slots[w].0.store(i, Relaxed);
                    slots[w].1.store(n + 1, Release);
                }
                cx.begin();
                cx.verbose = samples.len() < 1 && n == 3;
                let r = guarded(|| run(i, &mut cx));
                n += 1;
                if cx.nontrivial {
                    nt += 1;
                    if distinct.len() < 3_000_000 {
                        distinct.insert(cx.fp);
                    }
                }
                if cx.verbose {
                    samples.push(format!("case {}: {}", i, cx.desc.join("; ")));
                }
                if let Err(e) = r {
                    // run it again, describing every step
                    cx.begin();
                    cx.verbose = true;
                    let again = guarded(|| run(i, &mut cx));
                    let mut desc = cx.desc.clone();
                    if again.is_ok() {
                        desc.push("(not reproduced when re-run in the same process)".into());
                    }
                    let mut t = tot.lock().unwrap();
                    let better = match &t.violation {
                        None => true,
                        Some((j, _, _)) => i < *j,
                    };
                    if better {
                        t.violation = Some((i, e, desc));
                    }
                    stop.store(true, Relaxed);
                }
            }
            crumbs.set(w, 0, 0);
            #[cfg(not(miri))]
            {
                *slots[w].2.lock().unwrap() = None;
            }
            cx.begin();
            let mut t = tot.lock().unwrap();
            t.evaluations += n;
            t.nontrivial += nt;
            t.distinct.extend(distinct);
            t.states.extend(cx.states.drain());
            for (k, v) in &cx.stats {
                *t.stats.entry(k).or_insert(0) += v;
            }
            if t.samples.len() < 4 {
                t.samples.extend(samples);
            }
        };
        if plan.threads == 1 && cfg!(miri) {
            body();
        } else {
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(body).unwrap());
        }
    }
    // watchdog: CPU time of the case in progress, per worker
    #[cfg(not(miri))]
    {
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let hang = plan.hang_s;
        let threads = plan.threads;
        let wd = std::thread::spawn(move || {
            let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); threads];
            // nobody finishes a case, nobody is runnable and nobody uses the CPU: a deadlock
            let (mut last, mut since, mut at, mut tick) = (0u64, 0u32, 0.0, 0u32);
            while !d2.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                tick += 1;
                if tick % 20 == 0 {
                    let cpu = clock_s(libc::CLOCK_PROCESS_CPUTIME_ID);
                    let n = slots.iter().map(|s| s.1.load(Acquire)).sum::<u64>();
                    if n != last || !all_waiting() || cpu - at > 1.0 {
                        last = n;
                        since = 0;
                        at = cpu;
                    } else {
                        since += 1;
                        if since > 40 {
                            println!("HANG deadlock: for {} s no case has ended, no thread is runnable and none uses the CPU", since);
                            std::process::exit(12);
                        }
                    }
                }
                for w in 0..threads {
                    let g = slots[w].2.lock().unwrap();
                    if let Some(c) = *g {
                        let cpu = clock_s(c);
                        let n = slots[w].1.load(Acquire);
                        if seen[w].0 != n {
                            seen[w] = (n, cpu);
                        } else if cpu - seen[w].1 > hang {
                            println!("HANG worker {} case {} used {:.0}s of CPU time", w, slots[w].0.load(Relaxed), cpu - seen[w].1);
                            std::process::exit(12);
                        }
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Relaxed);
        wd.join().unwrap();
    }
    #[cfg(miri)]
    for h in hs {
        h.join().unwrap();
    }
    let mut t = std::mem::take(&mut *tot.lock().unwrap());
    t.wall = t0.elapsed().as_secs_f64();
    t.exhausted = next.load(Relaxed) >= plan.first + plan.cases;
    t
}

/// no thread but this one is runnable or in an uninterruptible wait
#[cfg(not(miri))]
pub fn all_waiting() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
    std::fs::read_dir("/proc/self/task").map_or(false, |d| {
        d.flatten().all(|t| {
            t.file_name().to_str() == Some(&me)
                || std::fs::read_to_string(t.path().join("stat")).map_or(true, |s| s.rsplit(')').next().map_or(true, |x| !x.trim_start().starts_with(['R', 'D'])))
        })
    })
}

pub fn plan_from(a: &Args) -> Plan {
    Plan {
        threads: a.n("threads", 8) as usize,
        cases: a.n("cases", u64::MAX / 4),
        secs: a.n("secs", 10) as f64,
        first: a.n("first", 0),
        place: if a.s("place") == Some("guard") { Place::Guard } else { Place::Heap },
        max_len: a.n("maxlen", 1 << 20) as usize,
        hang_s: a.n("hang", 120) as f64,
    }
}

/// exit code 0: nothing found, 10: violation (report printed as one JSON line after "VIOLATION-REPORT ")
pub fn finish(a: &Args, t: &Totals, prop: &str, mode: &str, seed: u64) -> i32 {
    let extra = format!(",\"prop\":{},\"mode\":{},\"seed\":{}", esc(prop), esc(mode), seed);
    println!("STATS {}", t.json(&extra));
    if let Some((i, e, d)) = &t.violation {
        println!(
            "VIOLATION-REPORT {{\"prop\":{},\"mode\":{},\"seed\":{},\"index\":{},\"place\":{},\"maxlen\":{},\"detail\":{},\"steps\":{}}}",
            esc(prop), esc(mode), seed, i, esc(a.s("place").unwrap_or("heap")), a.n("maxlen", 1 << 20), esc(e), jlist(d)
        );
        if e.contains("HARNESS-ERROR") {
            return 3;
        }
        return 10;
    }
    0
}

/// `run --prop ID --mode random|sweep`
pub fn main_run(a: &Args) -> i32 {
    let prop = a.s("prop").unwrap().to_string();
    let mode = a.s("mode").unwrap_or("random").to_string();
    let seed = a.n("seed", 1);
    let mut plan = plan_from(a);
    let crumbs = Arc::new(Crumbs::open(a.s("crumbs")));
    let p2 = prop.clone();
    let t = if mode == "sweep" {
        let (nb, ns) = props::sweep_len(&prop);
        plan.cases = plan.cases.min((nb + ns).saturating_sub(plan.first));
        drive(&plan, crumbs, Arc::new(move |i, cx| props::sweep(&p2, i, cx)))
    } else if mode == "bytes" {
        let d = std::fs::read(a.s("file").unwrap()).unwrap();
        plan.cases = 1;
        plan.first = 0;
        drive(&plan, crumbs, Arc::new(move |_, cx| props::case(&p2, &mut Src::bytes(&d), cx)))
    } else if mode == "big" {
        drive(&plan, crumbs, Arc::new(move |i, cx| props::big(&p2, i, &mut Src::rng(case_seed(seed, &p2, i)), cx)))
    } else if mode == "transcript" || mode == "tsweep" {
        // what each case returned, hashed; nothing is judged here
        ORACLE_OFF.store(true, Relaxed);
        let sweep = mode == "tsweep";
        if sweep {
            let (nb, ns) = props::sweep_len(&prop);
            plan.cases = plan.cases.min((nb + ns).saturating_sub(plan.first));
        }
        let n = plan.cases as usize;
        let first = plan.first;
        let v: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
        let v2 = v.clone();
        let show = a.s("show").is_some();
        let t = drive(
            &plan,
            crumbs,
            Arc::new(move |i, cx| {
                if show {
                    cx.verbose = true;
                }
                let mut src = Src::rng(case_seed(seed, &p2, i));
                let r = guarded(|| if sweep { props::sweep(&p2, i, cx) } else { props::case(&p2, &mut src, cx) });
                cx.saw(&[r.is_err() as u8]);
                cx.evn("refusals and panics", r.is_err() as u64);
                v2[(i - first) as usize].store(cx.tr | 1, Relaxed);
                if show {
                    for l in &cx.desc {
                        println!("STEP {}", l);
                    }
                    println!("STEP end: {:?}", r);
                }
                Ok(())
            }),
        );
        let mut out = Vec::with_capacity(8 * n);
        for x in v.iter() {
            out.extend_from_slice(&x.load(Relaxed).to_le_bytes());
        }
        if let Some(f) = a.s("out") {
            std::fs::write(f, out).unwrap();
        }
        t
    } else {
        drive(&plan, crumbs, Arc::new(move |i, cx| props::case(&p2, &mut Src::rng(case_seed(seed, &p2, i)), cx)))
    };
    finish(a, &t, &prop, &mode, seed)
}

/// `mini [--family b|s] [--part i --of n] [--secs s] [--seed n] [--oracle off]`: the small cases of this part,
/// in an order chosen by the seed; prints what each returned
pub fn main_mini(a: &Args) -> i32 {
    let seed = a.n("seed", 1);
    let (nb, ns) = (props::b::mini_len(), props::s::mini_len());
    let mut order: Vec<usize> = (0..nb + ns).collect();
    Src::rng(seed ^ 0x5eed).shuffle(&mut order);
    let (part, of) = (a.n("part", 0) as usize, a.n("of", 1) as usize);
    let secs = a.n("secs", 100_000) as f64;
    let only = a.s("only").map(|x| x.parse::<usize>().unwrap());
    let t0 = Instant::now();
    let mut cx = Cx::new(Place::Heap, 4096);
    let mut n = 0;
    for (k, c) in order.iter().enumerate() {
        if only.map_or(k % of != part, |o| o != *c) {
            continue;
        }
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        cx.begin();
        cx.verbose = only.is_some();
        if only.is_none() && of > 1 {
            println!("MINI-START {}", c);
        }
        let mut src = Src::rng(case_seed(seed, "mini", *c as u64));
        let r = guarded(|| if *c < nb { props::b::mini(*c, &mut src, &mut cx) } else { props::s::mini(*c - nb, &mut src, &mut cx) });
        let r = r.and_then(|_| cx.inputs_untouched());
        for l in &cx.desc {
            println!("STEP {}", l);
        }
        match r {
            Ok(()) => println!("MINI {} {:016x}", c, cx.tr),
            Err(e) => {
                println!("MINI {} failed: {}", c, e.replace('\n', " "));
            }
        }
        n += 1;
    }
    let st: Vec<String> = cx.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    println!("STATS {{\"evaluations\":{},\"distinct\":{},\"states\":0,\"events\":{{{}}},\"samples\":[],\"complete\":{},\"mode\":\"mini\"}}", n, n, st.join(","), secs > 99_999.0);
    0
}
