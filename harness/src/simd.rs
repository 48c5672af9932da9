//! Pretends that this CPU lacks SIMD features, by clearing bits in the standard library's feature cache
//! before the first use of the code under test. The cache is found through the symbol table (the caller
//! passes its distance from VERIF_ANCHOR) and the meaning of its bits by experiment.
use crate::at::{AtomicU64, AtomicUsize, Ordering::*};

#[no_mangle]
pub static VERIF_ANCHOR: AtomicU64 = AtomicU64::new(0x76657269);

#[cfg(all(target_arch = "x86_64", not(miri)))]
pub fn restrict(level: &str, delta: i64) -> Result<(), String> {
    VERIF_ANCHOR.fetch_add(1, Relaxed);
    let base = (&VERIF_ANCHOR as *const AtomicU64 as i64).wrapping_add(delta) as usize as *const AtomicUsize;
    let words: [&AtomicUsize; 3] = unsafe { [&*base, &*base.add(1), &*base.add(2)] };
    macro_rules! table {
        ($($n:tt),*) => { [$(($n, (|| std::is_x86_feature_detected!($n)) as fn() -> bool)),*] };
    }
    let feats = table!("sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f", "avx512vl", "avx512bw", "avx512dq", "fma", "bmi1", "bmi2");
    let _ = std::is_x86_feature_detected!("sse3");
    if words[0].load(Relaxed) == 0 {
        return Err("the feature cache is not where the symbol table says".into());
    }
    let keep: &[&str] = match level {
        "sse41" => &["sse3", "ssse3", "sse4.1"],
        "portable" => &[],
        _ => return Err(format!("unknown level {}", level)),
    };
    for (n, f) in feats.iter() {
        if keep.contains(n) || !f() {
            continue;
        }
        let mut found = false;
        'w: for w in words.iter() {
            for b in 0..63 {
                let v = w.load(Relaxed);
                if v >> b & 1 == 0 {
                    continue;
                }
                w.store(v & !(1 << b), Relaxed);
                if !f() {
                    found = true;
                    break 'w; // stays cleared
                }
                w.store(v, Relaxed);
            }
        }
        if !found {
            return Err(format!("no bit of the cache governs {}", n));
        }
    }
    for (n, f) in feats.iter() {
        if f() && !keep.contains(n) {
            return Err(format!("{} is still detected", n));
        }
    }
    if level == "sse41" && !std::is_x86_feature_detected!("sse4.1") {
        return Err("sse4.1 got lost".into());
    }
    Ok(())
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
pub fn restrict(_level: &str, _delta: i64) -> Result<(), String> {
    Err("not on this target".into())
}
