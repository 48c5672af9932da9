//! Coverage-guided choice of cases: libFuzzer proposes byte strings, `Src::bytes` turns them into the same
//! cases as the random runs, and the same oracle judges them.
use crate::run::*;
use crate::*;
use std::cell::RefCell;
use std::os::raw::{c_char, c_int};
use std::time::Instant;

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, f: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
    fn atexit(f: extern "C" fn()) -> c_int;
}

struct Fz {
    prop: String,
    cx: Cx,
    n: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    t0: Instant,
}
// libFuzzer calls back on the main thread; the state outlives thread-local storage, for the report at exit
struct Global(RefCell<Option<Fz>>);
unsafe impl Sync for Global {}
static FZ: Global = Global(RefCell::new(None));

fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}

extern "C" fn report() {
    if let Ok(g) = FZ.0.try_borrow() {
        if let Some(z) = &*g {
            let t = Totals {
                evaluations: z.n,
                distinct: z.distinct.clone(),
                states: z.cx.states.clone(),
                stats: z.cx.stats.clone(),
                samples: z.samples.clone(),
                wall: z.t0.elapsed().as_secs_f64(),
                ..Default::default()
            };
            use std::io::Write;
            let mut o = std::io::stdout();
            let _ = writeln!(o, "STATS {}", t.json(&format!(",\"prop\":{},\"mode\":\"fuzz\"", esc(&z.prop))));
            let _ = o.flush();
        }
    }
}

extern "C" fn one(p: *const u8, n: usize) -> c_int {
    let d: &[u8] = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    {
        let mut g = FZ.0.borrow_mut();
        let z = g.as_mut().unwrap();
        z.n += 1;
        z.cx.begin();
        let show = z.samples.is_empty() && z.n == 3000;
        z.cx.verbose = show;
        let prop = z.prop.clone();
        let cx = &mut z.cx;
        let r = guarded(|| props::case(&prop, &mut Src::bytes(d), cx));
        if z.cx.nontrivial && z.distinct.len() < 1_000_000 {
            let fp = z.cx.fp;
            z.distinct.insert(fp);
        }
        if show {
            z.samples.push(format!("{} bytes: {}", n, z.cx.desc.join("; ")));
        }
        if let Err(e) = r {
            z.cx.begin();
            z.cx.verbose = true;
            let cx = &mut z.cx;
            let again = guarded(|| props::case(&prop, &mut Src::bytes(d), cx));
            let mut desc = z.cx.desc.clone();
            if again.is_ok() {
                desc.push("(not reproduced when re-run in the same process)".into());
            }
            println!(
                "VIOLATION-REPORT {{\"prop\":{},\"mode\":\"fuzz\",\"seed\":0,\"index\":0,\"bytes\":{},\"detail\":{},\"steps\":{}}}",
                esc(&prop), esc(&hex(d)), esc(&e), jlist(&desc)
            );
            drop(g);
            report();
            unsafe { libc::_exit(if e.contains("HARNESS-ERROR") { 3 } else { 10 }) };
        }
    }
    0
}

/// `fuzz --prop ID --secs s --seed n --corpus DIR`
pub fn main_fuzz(a: &Args) -> i32 {
    let prop = a.s("prop").unwrap().to_string();
    let corpus = a.s("corpus").unwrap().to_string();
    let seed = a.n("seed", 1);
    // a few seeds of our own: random strings of several lengths
    let mut x = seed;
    for i in 0..48u32 {
        let mut v = vec![0u8; 1 + (crate::src::splitmix(&mut x) % 400) as usize];
        for c in v.chunks_mut(8) {
            let w = crate::src::splitmix(&mut x).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        let _ = std::fs::write(format!("{}/{:x}-{}", corpus, seed, i), v);
    }
    {
        *FZ.0.borrow_mut() = Some(Fz { prop, cx: Cx::new(Place::Heap, a.n("maxlen", 1 << 13) as usize), n: 0, distinct: HashSet::new(), samples: vec![], t0: Instant::now() })
    }
    let mut av: Vec<String> = vec!["harness".into()];
    av.push(format!("-max_total_time={}", a.n("secs", 15)));
    av.push(format!("-seed={}", seed));
    for s in ["-use_value_profile=1", "-max_len=700", "-len_control=0", "-reload=5", "-timeout=120", "-rss_limit_mb=3000", "-detect_leaks=0", "-handle_abrt=0", "-print_final_stats=1", "-verbosity=1"] {
        av.push(s.into());
    }
    av.push(format!("-artifact_prefix={}/crash-", corpus));
    av.push(corpus);
    let c: Vec<std::ffi::CString> = av.iter().map(|s| std::ffi::CString::new(s.as_str()).unwrap()).collect();
    let mut p: Vec<*mut c_char> = c.iter().map(|s| s.as_ptr() as *mut c_char).collect();
    p.push(std::ptr::null_mut());
    let mut argc = (p.len() - 1) as c_int;
    let mut argv = p.as_mut_ptr();
    unsafe {
        atexit(report);
        LLVMFuzzerRunDriver(&mut argc, &mut argv, one)
    }
}
